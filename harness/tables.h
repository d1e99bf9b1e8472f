// Tables, naive relational oracles and a leaf operation that yields a given
// table, so that the real operations can be run on any input.
#pragma once
#include "rows.h"
#include "engine/CallFixedSize.h"
#include "engine/Engine.h"
#include "engine/Operation.h"
#include "engine/QueryExecutionContext.h"
#include "engine/QueryExecutionTree.h"
#include "engine/ResultTable.h"
#include "engine/SortPerformanceEstimator.h"

namespace vh {
// A context with an empty index: enough for operations that work on tables.
struct Context {
  Index index;
  Engine engine;
  ConcurrentLruCache cache;
  PinnedSizes pinned;
  QueryExecutionContext qec;
  Context()
      : cache(1000),
        qec(index, engine, &cache, &pinned, alloc(), SortPerformanceEstimator{}) {}
};
inline Context& context() {
  static Context* c = new Context();
  return *c;
}

// Leaf operation that yields a fixed table.
class Leaf : public Operation {
 public:
  Table _t;
  size_t _cols;
  std::vector<size_t> _sorted;
  ad_utility::HashMap<string, size_t> _vars;
  std::vector<ResultTable::ResultType> _types;
  std::shared_ptr<std::vector<std::string>> _vocab;
  bool _knownEmpty = false;
  uint64_t _serial;
  Leaf(QueryExecutionContext* q, Table t, size_t cols, std::vector<size_t> sorted)
      : Operation(q), _t(std::move(t)), _cols(cols), _sorted(std::move(sorted)) {
    static uint64_t n = 0;
    _serial = n++;
  }
  string asString(size_t = 0) const override { return "leaf " + std::to_string(_serial); }
  string getDescriptor() const override { return asString(); }
  size_t getResultWidth() const override { return _cols; }
  void setTextLimit(size_t) override {}
  size_t getCostEstimate() override { return _t.size(); }
  size_t getSizeEstimate() override { return _t.size(); }
  float getMultiplicity(size_t) override { return 1; }
  bool knownEmptyResult() override { return _knownEmpty; }
  ad_utility::HashMap<string, size_t> getVariableColumns() const override { return _vars; }
  std::vector<QueryExecutionTree*> getChildren() override { return {}; }
  vector<size_t> resultSortedOn() const override { return _sorted; }

 private:
  void computeResult(ResultTable* r) override {
    r->_data.setCols(_cols);
    for (const auto& row : _t) {
      r->_data.push_back();
      for (size_t c = 0; c < _cols; c++) r->_data(r->_data.size() - 1, c) = row[c];
    }
    r->_sortedBy = _sorted;
    r->_resultTypes = _types;
    if (r->_resultTypes.empty()) r->_resultTypes.assign(_cols, ResultTable::ResultType::KB);
    if (_vocab) r->_localVocab = _vocab;
  }
};

struct LeafSpec {
  Table t;
  size_t cols;
  std::vector<size_t> sorted;
  std::vector<std::string> vars;  // names of the columns, "" for none
  std::vector<ResultTable::ResultType> types;
  std::shared_ptr<std::vector<std::string>> vocab;
  bool knownEmpty = false;
  long serial = -1;  // leaves with the same number have the same cache key
};
inline std::shared_ptr<QueryExecutionTree> leafTree(const LeafSpec& s) {
  auto* q = &context().qec;
  auto op = std::make_shared<Leaf>(q, s.t, s.cols, s.sorted);
  for (size_t i = 0; i < s.vars.size(); i++) {
    if (!s.vars[i].empty()) op->_vars[s.vars[i]] = i;
  }
  op->_types = s.types;
  op->_vocab = s.vocab;
  op->_knownEmpty = s.knownEmpty;
  if (s.serial >= 0) op->_serial = 1000000000ull + s.serial;
  auto tree = std::make_shared<QueryExecutionTree>(q);
  tree->setOperation(QueryExecutionTree::VALUES, op);
  tree->setVariableColumns(op->_vars);
  return tree;
}
// Runs an operation to completion through the public entry point.
inline std::shared_ptr<const ResultTable> runOp(Operation& op) {
  context().cache.clearAll();
  return op.getResult();
}
}  // namespace vh
