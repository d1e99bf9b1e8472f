From 23d2cb81dd47a068b1d2929e9969d15a14839721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:14 +0000
Subject: [PATCH 01/23] fix: galloping join starts its search in the left table
 at the left position

---
 src/engine/Join.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..5fcd2b9 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -647,7 +647,7 @@ void Join::doGallopInnerJoin(const TagType, const IdTableView<L_WIDTH>& l1,
       }
     } else {
       size_t step = 1;
-      size_t last = j;
+      size_t last = i;
       while (l2(j, jc2) > l1(i, jc1)) {
         last = i;
         i += step;
-- 
2.43.0


From 162ba5d4dbfbefad7c4a20b68e9607e7317a8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:40 +0000
Subject: [PATCH 02/23] fix: multi-column join reports the right column for
 each variable of its right input

---
 src/engine/MultiColumnJoin.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..097ff8e 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,21 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  size_t leftSize = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
+    size_t columnIndex = leftSize + it.second;
     bool isJoinColumn = false;
+    // Reduce the index for every join column of _right in front of this one.
     for (const std::array<Id, 2>& a : _joinColumns) {
-      if (a[1] == it.second) {
+      if (a[1] < it.second) {
+        columnIndex--;
+      } else if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
     }
     if (!isJoinColumn) {
       retVal[it.first] = columnIndex;
-      columnIndex++;
     }
   }
   return retVal;
-- 
2.43.0


From 32c13b9b6c7b6aa74222485f6a91cbdc020b411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:28 +0000
Subject: [PATCH 03/23] fix: joins on several columns handle tables with more
 than 31 columns

---
 src/engine/MultiColumnJoin.h |  6 +++---
 src/engine/OptionalJoin.cpp  | 17 +++++++++--------
 src/engine/OptionalJoin.h    |  4 ++--
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/engine/MultiColumnJoin.h b/src/engine/MultiColumnJoin.h
index 3810352..07b455b 100644
--- a/src/engine/MultiColumnJoin.h
+++ b/src/engine/MultiColumnJoin.h
@@ -82,9 +82,9 @@ void MultiColumnJoin::computeMultiColumnJoin(
 
   // Marks the columns in b that are join columns. Used to skip these
   // when computing the result of the join
-  int joinColumnBitmap_b = 0;
+  std::vector<bool> joinColumnBitmap_b(dynB.cols(), false);
   for (const array<Id, 2>& jc : joinColumns) {
-    joinColumnBitmap_b |= (1 << jc[1]);
+    joinColumnBitmap_b[jc[1]] = true;
   }
 
   IdTableView<A_WIDTH> a = dynA.asStaticView<A_WIDTH>();
@@ -142,7 +142,7 @@ void MultiColumnJoin::computeMultiColumnJoin(
           rIndex++;
         }
         for (size_t col = 0; col < b.cols(); col++) {
-          if ((joinColumnBitmap_b & (1 << col)) == 0) {
+          if (!joinColumnBitmap_b[col]) {
             result(backIdx, rIndex) = b(ib, col);
             rIndex++;
           }
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..3044ec6 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -275,7 +275,8 @@ template <int A_WIDTH, int B_WIDTH, int OUT_WIDTH>
 void OptionalJoin::createOptionalResult(
     const IdTableView<A_WIDTH>& a, size_t aIdx, bool aEmpty,
     const IdTableView<B_WIDTH>& b, size_t bIdx, bool bEmpty,
-    int joinColumnBitmap_a, int joinColumnBitmap_b,
+    const std::vector<bool>& joinColumnBitmap_a,
+    const std::vector<bool>& joinColumnBitmap_b,
     const std::vector<Id>& joinColumnAToB, IdTableStatic<OUT_WIDTH>* res) {
   assert(!(aEmpty && bEmpty));
   res->emplace_back();
@@ -284,7 +285,7 @@ void OptionalJoin::createOptionalResult(
     // Fill the columns of a with ID_NO_VALUE and the rest with b.
     size_t i = 0;
     for (size_t col = 0; col < a.cols(); col++) {
-      if ((joinColumnBitmap_a & (1 << col)) == 0) {
+      if (!joinColumnBitmap_a[col]) {
         (*res)(rIdx, col) = ID_NO_VALUE;
       } else {
         // if this is one of the join columns use the value in b
@@ -293,7 +294,7 @@ void OptionalJoin::createOptionalResult(
       i++;
     }
     for (size_t col = 0; col < b.cols(); col++) {
-      if ((joinColumnBitmap_b & (1 << col)) == 0) {
+      if (!joinColumnBitmap_b[col]) {
         // only write the value if it is not one of the join columns in b
         (*res)(rIdx, i) = b(bIdx, col);
         i++;
@@ -315,7 +316,7 @@ void OptionalJoin::createOptionalResult(
       i++;
     }
     for (size_t col = 0; col < b.cols(); col++) {
-      if ((joinColumnBitmap_b & (1 << col)) == 0) {
+      if (!joinColumnBitmap_b[col]) {
         (*res)(rIdx, i) = b(bIdx, col);
         i++;
       }
@@ -338,11 +339,11 @@ void OptionalJoin::optionalJoin(const IdTable& dynA, const IdTable& dynB,
   const IdTableView<B_WIDTH> b = dynB.asStaticView<B_WIDTH>();
   IdTableStatic<OUT_WIDTH> result = dynResult->moveToStatic<OUT_WIDTH>();
 
-  int joinColumnBitmap_a = 0;
-  int joinColumnBitmap_b = 0;
+  std::vector<bool> joinColumnBitmap_a(dynA.cols(), false);
+  std::vector<bool> joinColumnBitmap_b(dynB.cols(), false);
   for (const array<Id, 2>& jc : joinColumns) {
-    joinColumnBitmap_a |= (1 << jc[0]);
-    joinColumnBitmap_b |= (1 << jc[1]);
+    joinColumnBitmap_a[jc[0]] = true;
+    joinColumnBitmap_b[jc[1]] = true;
   }
 
   // When a is optional this is used to quickly determine
diff --git a/src/engine/OptionalJoin.h b/src/engine/OptionalJoin.h
index a44b3d2..370e12b 100644
--- a/src/engine/OptionalJoin.h
+++ b/src/engine/OptionalJoin.h
@@ -84,8 +84,8 @@ class OptionalJoin : public Operation {
   static void createOptionalResult(const IdTableView<A_WIDTH>& a, size_t aIdx,
                                    bool aEmpty, const IdTableView<B_WIDTH>& b,
                                    size_t bIdx, bool bEmpty,
-                                   int joinColumnBitmap_a,
-                                   int joinColumnBitmap_b,
+                                   const std::vector<bool>& joinColumnBitmap_a,
+                                   const std::vector<bool>& joinColumnBitmap_b,
                                    const std::vector<Id>& joinColumnAToB,
                                    IdTableStatic<OUT_WIDTH>* res);
 
-- 
2.43.0


From 41c330aaf14a81055de57901198157df29b6bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:06 +0000
Subject: [PATCH 04/23] fix: cache keys of operations name all parameters the
 result depends on

---
 src/engine/Distinct.cpp         | 5 ++++-
 src/engine/GroupBy.cpp          | 3 +++
 src/engine/HasPredicateScan.cpp | 3 ++-
 src/engine/Minus.cpp            | 6 +++++-
 src/engine/OptionalJoin.cpp     | 4 ++++
 src/engine/TransitivePath.cpp   | 4 ++--
 src/engine/Union.cpp            | 4 ++++
 7 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..6594261 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,10 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct " << _subtree->asString(indent) << " on columns:";
+  for (size_t col : _keepIndices) {
+    os << " " << col;
+  }
   return os.str();
 }
 
diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..cd9b805 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -58,6 +58,9 @@ string GroupBy::asString(size_t indent) const {
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
+    if (p._isDistinct) {
+      os << " DISTINCT ";
+    }
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
       os << p._delimiter;
     }
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..6624b3b 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = (col " << _subtreeColIndex << ") "
+         << _subtree->asString(indent);
       break;
   }
   return os.str();
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..42e28a5 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -36,7 +36,11 @@ string Minus::asString(size_t indent) const {
     os << " ";
   }
   os << "MINUS\n" << _left->asString(indent) << "\n";
-  os << _right->asString(indent) << " ";
+  os << _right->asString(indent) << " matched-columns: [";
+  for (const auto& columns : _matchedColumns) {
+    os << " " << columns[0] << "=" << columns[1];
+  }
+  os << " ]";
   return os.str();
 }
 
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index 3044ec6..2e7656d 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -54,6 +54,10 @@ string OptionalJoin::asString(size_t indent) const {
     os << _joinColumns[i][1] << (i < _joinColumns.size() - 1 ? " & " : "");
   };
   os << "]";
+  // The usual case of only the right side being optional is not marked.
+  if (_leftOptional || !_rightOptional) {
+    os << " optional: " << _leftOptional << "/" << _rightOptional;
+  }
   return os.str();
 }
 
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..9e85186 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree (col " << _leftSideCol << "):\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree (col " << _rightSideCol << "):\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..cc5b77d 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,10 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  os << "columns:";
+  for (const auto& origin : _columnOrigins) {
+    os << " " << origin[0] << "/" << origin[1];
+  }
   return os.str();
 }
 
-- 
2.43.0


From b88804869eccec02e0c089c2d3010434f4b21ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:22 +0000
Subject: [PATCH 05/23] fix: transitive paths with limited length, repeated
 bound elements and two fixed ends

The depth-first search marked a node when it was first reached, so with a
limited path length nodes behind it were missed if it was first reached by
a longer path.  Rows of a bound side with the same key as the row before got
that row's other columns.  Paths between two fixed nodes were never found.
---
 src/engine/TransitivePath.cpp | 87 +++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 24 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 9e85186..1963555 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -257,10 +257,6 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
   using Map = ad_utility::HashMap<Id, std::shared_ptr<ad_utility::HashSet<Id>>>;
   using MapIt = Map::iterator;
 
-  if constexpr (!leftIsVar && !rightIsVar) {
-    return;
-  }
-
   const IdTableView<SUB_WIDTH> sub = dynSub.asStaticView<SUB_WIDTH>();
   IdTableStatic<2> res = dynRes->moveToStatic<2>();
 
@@ -321,8 +317,9 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
 
   // For every node do a dfs on the graph
 
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
+  // Stores nodes we already have a path to, together with the smallest depth
+  // at which they were found. This avoids cycles.
+  ad_utility::HashMap<Id, size_t> marks;
 
   // The stack used to store the dfs' progress
   std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
@@ -362,14 +359,24 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
       size_t child = *pos;
       ++pos;
       size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
+      auto mark = marks.find(child);
+      bool isNew = mark == marks.end();
+      // If the length of the paths is limited, a child that was reached before
+      // has to be expanded again when it is now reached by a shorter path.
+      bool isCloser = !isNew && maxDist != std::numeric_limits<size_t>::max() &&
+                      childDepth < mark->second;
+      if (childDepth <= maxDist && (isNew || isCloser)) {
         // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
+        if (childDepth >= minDist && !isNew) {
+          mark->second = childDepth;
+        } else if (childDepth >= minDist) {
+          marks[child] = childDepth;
           if constexpr (rightIsVar) {
             res.push_back({nodes[i], child});
           } else {
-            res.push_back({child, nodes[i]});
+            if (leftIsVar || child == leftValue) {
+              res.push_back({child, nodes[i]});
+            }
           }
         }
         // Add the child to the stack
@@ -428,8 +435,9 @@ void TransitivePath::computeTransitivePathLeftBound(
 
   // For every node do a dfs on the graph
 
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
+  // Stores nodes we already have a path to, together with the smallest depth
+  // at which they were found. This avoids cycles.
+  ad_utility::HashMap<Id, size_t> marks;
 
   // The stack used to store the dfs' progress
   std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
@@ -450,8 +458,15 @@ void TransitivePath::computeTransitivePathLeftBound(
       res.resize(res.size() + num_new);
       checkTimeoutAfterNCalls(num_new * resWidth);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        // The other columns stem from the current row.
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < leftSideCol) {
+            res(res_row + j, k) = left(i, k - 2);
+          } else if (k - 2 > leftSideCol) {
+            res(res_row + j, k - 1) = left(i, k - 2);
+          }
         }
       }
       continue;
@@ -487,10 +502,18 @@ void TransitivePath::computeTransitivePathLeftBound(
       size_t child = *pos;
       ++pos;
       size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
+      auto mark = marks.find(child);
+      bool isNew = mark == marks.end();
+      // If the length of the paths is limited, a child that was reached before
+      // has to be expanded again when it is now reached by a shorter path.
+      bool isCloser = !isNew && maxDist != std::numeric_limits<size_t>::max() &&
+                      childDepth < mark->second;
+      if (childDepth <= maxDist && (isNew || isCloser)) {
         // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
+        if (childDepth >= minDist && !isNew) {
+          mark->second = childDepth;
+        } else if (childDepth >= minDist) {
+          marks[child] = childDepth;
           if (rightIsVar || child == rightValue) {
             size_t row = res.size();
             res.emplace_back();
@@ -565,8 +588,9 @@ void TransitivePath::computeTransitivePathRightBound(
 
   // For every node do a dfs on the graph
 
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
+  // Stores nodes we already have a path to, together with the smallest depth
+  // at which they were found. This avoids cycles.
+  ad_utility::HashMap<Id, size_t> marks;
 
   // The stack used to store the dfs' progress
   std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
@@ -587,8 +611,15 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t res_row = res.size();
       res.resize(res.size() + num_new);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        // The other columns stem from the current row.
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < rightSideCol) {
+            res(res_row + j, k) = right(i, k - 2);
+          } else if (k - 2 > rightSideCol) {
+            res(res_row + j, k - 1) = right(i, k - 2);
+          }
         }
       }
       checkTimeoutAfterNCalls(num_new * resWidth);
@@ -625,10 +656,18 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t child = *pos;
       ++pos;
       size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
+      auto mark = marks.find(child);
+      bool isNew = mark == marks.end();
+      // If the length of the paths is limited, a child that was reached before
+      // has to be expanded again when it is now reached by a shorter path.
+      bool isCloser = !isNew && maxDist != std::numeric_limits<size_t>::max() &&
+                      childDepth < mark->second;
+      if (childDepth <= maxDist && (isNew || isCloser)) {
         // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
+        if (childDepth >= minDist && !isNew) {
+          mark->second = childDepth;
+        } else if (childDepth >= minDist) {
+          marks[child] = childDepth;
           if (leftIsVar || child == leftValue) {
             size_t row = res.size();
             res.emplace_back();
-- 
2.43.0


From 4d563f7fcfb68acae15adfc1a2056507b0ed0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:08 +0000
Subject: [PATCH 06/23] fix: cache key of GROUP BY names the grouped input
 columns

---
 src/engine/GroupBy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index cd9b805..4f52198 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -54,6 +54,10 @@ string GroupBy::asString(size_t indent) const {
   }
   os << "GROUP_BY ";
   for (const std::string& var : _groupByVariables) {
+    auto inputColumn = varMapInput.find(var);
+    if (inputColumn != varMapInput.end()) {
+      os << inputColumn->second << "->";
+    }
     os << varMap.at(var) << ", ";
   }
   for (const auto& p : _aliases) {
-- 
2.43.0


From af00cc309041a457594aa636fe455053862f24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 07/23] fix: FILTER with range, word bounds and floating point
 constants

The inverse range filter on a sorted column appended rows of the result to itself.
FILTER(?x <= w) and FILTER(?x > w) were wrong if all words are greater than w.
Constants for floating point columns were compared with uninitialised bytes,
and binary search was used although floats are not sorted by value.
---
 src/engine/Filter.cpp | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..1ca56d7 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
@@ -310,8 +310,10 @@ void Filter::computeFilterFixedValue(
     IdTableStatic<WIDTH>* res, size_t lhs, Id rhs,
     const IdTableView<WIDTH>& input,
     shared_ptr<const ResultTable> subRes) const {
-  bool lhs_is_sorted =
-      subRes->_sortedBy.size() > 0 && subRes->_sortedBy[0] == lhs;
+  // Sorting compares the ids, which is not the order of the values for floats.
+  bool lhs_is_sorted = T != ResultTable::ResultType::FLOAT &&
+                       subRes->_sortedBy.size() > 0 &&
+                       subRes->_sortedBy[0] == lhs;
   Id* rhs_array = new Id[res->cols()];
   IdTable::row_type rhs_row(rhs_array, res->cols());
   switch (_type) {
@@ -325,7 +327,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() &&
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // an element equal to rhs exists in the vector
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -336,7 +339,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] == rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) == ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::NE:
@@ -349,7 +356,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() &&
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // rhs appears within the input, take all elements before and after it
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -364,7 +372,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] != rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::LT:
@@ -633,8 +645,8 @@ void Filter::computeResultFixedValue(
 
   // interpret the filters right hand side
   size_t lhs = _subtree->getVariableColumn(_lhs);
-  Id rhs;
-  Id rhs_upper_for_range;
+  Id rhs = 0;
+  Id rhs_upper_for_range = 0;
   bool apply_range_filter = false;
   bool range_filter_inverse = false;
   switch (subRes->getResultType(lhs)) {
@@ -669,12 +681,16 @@ void Filter::computeResultFixedValue(
         range_filter_inverse = _type == SparqlFilter::NE;
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
-      } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
-      } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
+      } else if (_type == SparqlFilter::LE || _type == SparqlFilter::GT) {
+        // There might be no word that is less than or equal to the right hand
+        // side, so the bound has to be exclusive.
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
+        range_filter_inverse = _type == SparqlFilter::GT;
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 136fb41015b6fd455b4c778832c924fdbf957c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 08/23] fix: take types of columns that only the right side of
 a UNION has from the right side

---
 src/engine/Union.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index cc5b77d..432b74c 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -144,7 +144,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From 6912ef33b6f86f575491d4c780c277ecfa8c8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:11 +0000
Subject: [PATCH 09/23] fix: ORDER BY announces only its leading ascending
 columns as sorted

Columns after a descending one are not sorted over the whole table.
A join that relied on the announced order lost rows.
---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..ef2406b 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only ascending columns count as sorted, and the columns after a
+      // descending one are only sorted within its groups.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0


From e9f8178b9725114daa3660f9d6d82d0c45fd92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:27 +0000
Subject: [PATCH 10/23] fix: aggregates over the whole table, AVG DISTINCT,
 GROUP_CONCAT DISTINCT and types of FIRST and LAST

Aggregates without GROUP BY read one row past the end of the table.
AVG(DISTINCT) divided by the number of all values.
GROUP_CONCAT(DISTINCT) could end with a delimiter.
FIRST and LAST take the type of their input column.
Words created by a subresult stay valid in the result.
---
 src/engine/GroupBy.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 4f52198..ead6f69 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -195,6 +195,8 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      // The number of values the sum is divided by.
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -205,6 +207,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -225,6 +228,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -255,6 +259,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -272,7 +277,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
@@ -297,6 +302,9 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
       break;
     case ParsedQuery::AggregateType::GROUP_CONCAT: {
       std::ostringstream out;
+      // True if the last value was a duplicate and hence the last thing written
+      // was a delimiter.
+      bool endsWithDelimiter = false;
       std::string* delim = reinterpret_cast<string*>(a._userData);
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
@@ -309,8 +317,9 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
+          endsWithDelimiter = it != distinctHashSet.end();
           if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
+            out << input(blockEnd, a._inCol);
           }
           distinctHashSet.clear();
         } else {
@@ -333,6 +342,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
+          endsWithDelimiter = it != distinctHashSet.end();
           if (it == distinctHashSet.end()) {
             std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
             out << f;
@@ -358,6 +368,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
+          endsWithDelimiter = it != distinctHashSet.end();
           if (it == distinctHashSet.end()) {
             out << index.getTextExcerpt(input(blockEnd, a._inCol));
           }
@@ -383,6 +394,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
+          endsWithDelimiter = it != distinctHashSet.end();
           if (it == distinctHashSet.end()) {
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
             out << inTable->idToOptionalString(input(blockEnd, a._inCol))
@@ -418,6 +430,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
+          endsWithDelimiter = it != distinctHashSet.end();
           if (it == distinctHashSet.end()) {
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
             std::string entity =
@@ -454,7 +467,11 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         }
       }
       (*result)(resultRow, a._outCol) = outTable->_localVocab->size();
-      outTable->_localVocab->push_back(out.str());
+      std::string concatenated = out.str();
+      if (endsWithDelimiter) {
+        concatenated.erase(concatenated.size() - delim->size());
+      }
+      outTable->_localVocab->push_back(std::move(concatenated));
       break;
     }
     case ParsedQuery::AggregateType::MAX: {
@@ -631,7 +648,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
@@ -750,6 +767,9 @@ void GroupBy::computeResult(ResultTable* result) {
   RuntimeInformation& runtimeInfo = getRuntimeInfo();
   runtimeInfo.addChild(_subtree->getRootOperation()->getRuntimeInfo());
 
+  // Ids of the local vocabulary that are passed through have to stay valid.
+  *result->_localVocab = *subresult->_localVocab;
+
   // populate the result type vector
   result->_resultTypes.resize(result->_data.cols());
   for (size_t i = 0; i < result->_data.cols(); i++) {
@@ -772,6 +792,8 @@ void GroupBy::computeResult(ResultTable* result) {
             subresult->getResultType(aggregates[i]._inCol);
         break;
       case ParsedQuery::AggregateType::SAMPLE:
+      case ParsedQuery::AggregateType::FIRST:
+      case ParsedQuery::AggregateType::LAST:
         result->_resultTypes[i] =
             subresult->getResultType(aggregates[i]._inCol);
         break;
-- 
2.43.0


From 93ffe9fd64bfdec3f050a83ed1f20eb06a303e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:27 +0000
Subject: [PATCH 11/23] fix: order and round trip of number literals

Zeros with several decimals, redundant zeros and scientific notation get the index word of their value.
Negative numbers are ordered correctly by the locale aware comparison of the vocabulary.
Numbers with more digits than fit into an integer are read back without an exception.
---
 src/util/Conversions.h | 68 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b4c6bd4..ef4eb6d 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -209,10 +209,51 @@ string convertFloatStringToIndexWord(const string& orig,
     value = orig;
   }
   size_t posOfDot = value.find('.');
+  // Expand scientific notation, e.g. 1.25E3 to 1250.0
+  const size_t posOfExponent = value.find_first_of("eE");
+  if (posOfExponent != string::npos && posOfExponent + 1 < value.size()) {
+    char* end;
+    const long exponent = strtol(value.c_str() + posOfExponent + 1, &end, 10);
+    string digits = value.substr(0, posOfExponent);
+    if (*end == '\0' && std::abs(exponent) <= 1000 && isNumeric(digits)) {
+      posOfDot = std::min(digits.find('.'), digits.size());
+      if (posOfDot < digits.size()) {
+        digits.erase(posOfDot, 1);
+      }
+      const size_t start = digits[0] == '-' ? 1 : 0;
+      long newPosOfDot = static_cast<long>(posOfDot) + exponent;
+      while (newPosOfDot <= static_cast<long>(start)) {
+        digits.insert(start, "0");
+        ++newPosOfDot;
+      }
+      while (newPosOfDot >= static_cast<long>(digits.size())) {
+        digits.push_back('0');
+      }
+      digits.insert(newPosOfDot, ".");
+      return convertFloatStringToIndexWord(digits, type);
+    }
+  }
   if (posOfDot == string::npos) {
     return convertFloatStringToIndexWord(value + ".0", type);
   }
 
+  // Bring the number to a canonical form: no redundant zeros, but at least one
+  // digit before and after the dot.
+  const size_t numSigns = value[0] == '-' ? 1 : 0;
+  while (value[numSigns] == '0' && value[numSigns + 1] != '.') {
+    value.erase(numSigns, 1);
+  }
+  if (value[numSigns] == '.') {
+    value.insert(numSigns, "0");
+  }
+  posOfDot = value.find('.');
+  while (value.back() == '0' && value.size() > posOfDot + 2) {
+    value.pop_back();
+  }
+  if (value.back() == '.') {
+    value.push_back('0');
+  }
+
   // Treat the special case 0.0
   if (value == "0.0" || value == "-0.0") {
     return string(VALUE_FLOAT_PREFIX) + "N0" + char(type);
@@ -246,11 +287,13 @@ string convertFloatStringToIndexWord(const string& orig,
 
   // Produce a string for the exponent sign.
   // Note that the index word has to start with one of:
-  // PP, PM, M+, M- so that the lexicographical ordering
-  // reflects the actual order of floats.
+  // PP, PM, ML, MS so that the lexicographical ordering
+  // reflects the actual order of floats. For negative numbers L (large) and S
+  // (small) are used because the vocabulary is sorted by locale and many
+  // locales order '-' before '+'.
   bool negaExpo = (exponent < 0);
   if (negaMantissa) {
-    os << (negaExpo ? '-' : '+');
+    os << (negaExpo ? 'S' : 'L');
   } else {
     os << (negaExpo ? 'M' : 'P');
   }
@@ -316,7 +359,7 @@ string convertIndexWordToFloatString(const string& indexWord) {
   }
   assert(number.size() >= 5);
   bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
+  bool negaExponent = number[1] == 'M' || number[1] == 'S';
 
   size_t posOfE = number.find('E');
   assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
@@ -382,10 +425,13 @@ string convertIndexWordToFloatString(const string& indexWord) {
       os << '0';
     }
 
-    if (absExponent > mantissa.size()) {
-      for (size_t i = 0; i < absExponent - mantissa.size(); ++i) {
+    if (absExponent >= mantissa.size()) {
+      // Not all digits before the dot are stored.
+      os << zeros.str();
+      for (size_t i = 0; i < absExponent - mantissa.size() + 1; ++i) {
         os << "0";
       }
+      os << ".0";
     }
   }
   return os.str();
@@ -404,7 +450,7 @@ float convertIndexWordToFloat(const string& indexWord) {
   }
   assert(number.size() >= 5);
   bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
+  bool negaExponent = number[1] == 'M' || number[1] == 'S';
 
   size_t posOfE = number.find('E');
   assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
@@ -425,8 +471,14 @@ float convertIndexWordToFloat(const string& indexWord) {
   for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
        mStop--)
     ;
+  if (mStart == mantissa.size()) {
+    // All digits that are stored are zero.
+    return 0;
+  }
+  // A long can not hold more than 18 digits, a float is less precise anyway.
+  mStop = std::min(mStop, mStart + 17);
   long absMantissa = stol(mantissa.substr(mStart, mStop - mStart + 1));
-  unsigned int mantissaLog = std::log10(absMantissa);
+  unsigned int mantissaLog = mStop - mStart;
   if (negaMantissa) {
     if (negaExponent) {
       return -absMantissa * std::pow(10, -absExponent - mantissaLog);
-- 
2.43.0


From d6aafd591bc26a16aef186f4a986272e04d2c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:51 +0000
Subject: [PATCH 12/23] fix: allocators with limit for several types, refused
 and failed requests

Using the allocator for two element types in one program did not compile.
A request whose size in bytes overflows was granted.
A request that the system could not serve was still deducted from the memory left.
---
 src/util/AllocatorWithLimit.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/util/AllocatorWithLimit.h b/src/util/AllocatorWithLimit.h
index 7d6f568..adc2a0f 100644
--- a/src/util/AllocatorWithLimit.h
+++ b/src/util/AllocatorWithLimit.h
@@ -6,6 +6,7 @@
 #define QLEVER_ALLOCATORWITHLIMIT_H
 
 #include <atomic>
+#include <limits>
 #include <memory>
 
 #include "Synchronized.h"
@@ -140,9 +141,20 @@ class AllocatorWithLimit {
   T* allocate(std::size_t n) {
     // Subtract the amount of memory we want to allocate from the amount of
     // memory left. This will throw an exception if not enough memory is left.
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      // The number of bytes does not fit into a size_t.
+      throw detail::AllocationExceedsLimitException{
+          std::numeric_limits<std::size_t>::max(), numFreeBytes()};
+    }
     memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));
     // the actual allocation
-    return allocator_.allocate(n);
+    try {
+      return allocator_.allocate(n);
+    } catch (...) {
+      // Nothing was allocated.
+      memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
+      throw;
+    }
   }
 
   // An allocator must have a function "deallocate" with exactly this signature.
@@ -167,15 +179,16 @@ class AllocatorWithLimit {
   // The STL needs two allocators to be equal if and only they refer to the same
   // memory pool. For us, they are hence equal if they use the same
   // AllocationMemoryLeft object.00
-  template <typename U, typename V>
-  friend bool operator==(const AllocatorWithLimit<U>& u,
-                         const AllocatorWithLimit<V>& v) {
-    return u.memoryLeft_ == v.memoryLeft_;
+  template <typename>
+  friend class AllocatorWithLimit;
+
+  template <typename V>
+  bool operator==(const AllocatorWithLimit<V>& v) const {
+    return memoryLeft_ == v.memoryLeft_;
   }
-  template <typename U, typename V>
-  friend bool operator!=(const AllocatorWithLimit<U>& u,
-                         const AllocatorWithLimit<V>& v) {
-    return !(u == v);
+  template <typename V>
+  bool operator!=(const AllocatorWithLimit<V>& v) const {
+    return !(*this == v);
   }
 };
 
-- 
2.43.0


From c785103cc90aba44825f5a8207cb43c127c08350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:29 +0000
Subject: [PATCH 13/23] fix: heap-based priority queue returned popped elements
 again and used an inconsistent comparison

An element whose score was changed and changed back has several entries in
the heap. After it was popped, the remaining entries were still taken for
valid, so the element was popped twice and the size became wrong.
---
 src/util/PriorityQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/PriorityQueue.h b/src/util/PriorityQueue.h
index 386867c..6097f83 100644
--- a/src/util/PriorityQueue.h
+++ b/src/util/PriorityQueue.h
@@ -274,7 +274,7 @@ class HeapBasedPQ {
     // std::priority_queue is a max_heap by default, this makes it a min_heap as
     // documented, s.t. the two implementations behave similarly
     return [comp](const PqEntry& a, const PqEntry& b) {
-      return !comp(a.mScore, b.mScore);
+      return comp(b.mScore, a.mScore);
     };
   }
 
@@ -402,7 +402,8 @@ class HeapBasedPQ {
   void pruneChangedKeys() {
     while (!_pq.empty()) {
       const auto& top = _pq.top();
-      if (top.mHandle.isValid() && top.mScore == top.mHandle.score()) {
+      if (top.mHandle.isInPq() && top.mHandle.isValid() &&
+          top.mScore == top.mHandle.score()) {
         return;
       }
       // a mismatch means, that somebody has changed the key, and this value is
-- 
2.43.0


From 93d75772489f834d4a486c647fd241e2d6d434ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:29 +0000
Subject: [PATCH 14/23] fix: make FlexibleCache::erase and TreeBasedLRUCache
 usable

Both did not compile when used: erase passed the handle instead of the value
to the size function, the constructor passed too few limits to its base.
---
 src/util/Cache.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/Cache.h b/src/util/Cache.h
index d89c9f0..c859c82 100644
--- a/src/util/Cache.h
+++ b/src/util/Cache.h
@@ -274,7 +274,7 @@ class FlexibleCache {
       return;
     }
     // the entry exists in the non-pinned part of the cache, erase it.
-    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second);
+    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second.value().value());
     _entries.erase(std::move(mapIt->second));
     _accessMap.erase(mapIt);
   }
@@ -430,9 +430,11 @@ class TreeBasedLRUCache
                                           detail::timeAsScore, ValueSizeGetter>;
 
  public:
-  explicit TreeBasedLRUCache(size_t capacity)
-      : Base(capacity, std::less<>(), detail::timeUpdater{},
-             detail::timeAsScore{}, ValueSizeGetter{}) {}
+  explicit TreeBasedLRUCache(size_t capacityNumEls,
+                             size_t capacitySize = size_t_max,
+                             size_t maxSizeSingleEl = size_t_max)
+      : Base(capacityNumEls, capacitySize, maxSizeSingleEl, std::less<>(),
+             detail::timeUpdater{}, detail::timeAsScore{}, ValueSizeGetter{}) {}
 };
 
 /// typedef for the simple name LRUCache that is fixed to one of the possible
-- 
2.43.0


From e3f8e96b6d6aa832542ad667769bcffa1053c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:59 +0000
Subject: [PATCH 15/23] fix: text search with two words or without entities,
 columns of filtered tuples

- The scores of the second word were used for both words, reading past their
  end if the second list is shorter.
- Reading the entities of a text block that has none threw an exception.
- With a set as filter the entities of a tuple were written to wrong columns.
---
 src/index/FTSAlgorithms.cpp | 2 +-
 src/index/Index.Text.cpp    | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/index/FTSAlgorithms.cpp b/src/index/FTSAlgorithms.cpp
index 356a758..0361b70 100644
--- a/src/index/FTSAlgorithms.cpp
+++ b/src/index/FTSAlgorithms.cpp
@@ -1307,7 +1307,7 @@ void FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts(
       result(n, 1) = rscore;
       size_t off = 2;
       for (size_t i = 1; i < keyEids.size(); i++) {
-        result(n, 2 + i) = keyEids[i];
+        result(n, off) = keyEids[i];
         off++;
       }
       result(n, off) = keyEids[0];
diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..b4c4efa 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -548,7 +548,7 @@ void Index::getContextListForWords(const string& words,
     }
     if (cidVecs.size() == 2) {
       FTSAlgorithms::intersectTwoPostingLists(
-          cidVecs[0], scoreVecs[1], cidVecs[1], scoreVecs[1], cids, scores);
+          cidVecs[0], scoreVecs[0], cidVecs[1], scoreVecs[1], cids, scores);
     } else {
       vector<Id> dummy;
       FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, nullptr, cids, dummy,
@@ -901,6 +901,11 @@ void Index::readGapComprList(size_t nofElements, off_t from, size_t nofBytes,
 template <typename T>
 void Index::readFreqComprList(size_t nofElements, off_t from, size_t nofBytes,
                               vector<T>& result) const {
+  if (nofElements == 0) {
+    // Nothing, not even a codebook, is written for an empty list.
+    result.clear();
+    return;
+  }
   AD_CHECK_GT(nofBytes, 0);
   LOG(DEBUG) << "Reading frequency-encoded list from disk...\n";
   LOG(TRACE) << "NofElements: " << nofElements << ", from: " << from
-- 
2.43.0


From 88ecbbb9c5fb9f7d62c3d5b22446292325921e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:08 +0000
Subject: [PATCH 16/23] fix: accept numeric escapes at the end of literals and
 IRIs

---
 src/parser/RdfEscaping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..b5224a0 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -76,7 +76,7 @@ void unescapeStringAndNumericEscapes(InputIterator beginIterator,
   auto pushNumericEscape = [&outputIterator, &endIterator](const auto& iterator,
                                                            size_t length) {
     if constexpr (!acceptOnlyBackslashAndNewline) {
-      AD_CHECK(iterator + length < endIterator);
+      AD_CHECK(iterator + length <= endIterator);
       auto unesc =
           hexadecimalCharactersToUtf8(std::string_view(iterator, length));
       std::copy(unesc.begin(), unesc.end(), outputIterator);
-- 
2.43.0


From 1b4d9ac57549af4a890c99aa301bdf23538c5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:33 +0000
Subject: [PATCH 17/23] fix: give externalized words shared by several partial
 vocabularies one id

---
 src/index/VocabularyGeneratorImpl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..015f259 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -157,7 +157,9 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
         // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // (in a copy, because duplicates are recognized by `_lastWritten`)
+        std::string externalWord = _lastWritten;
+        auto& c = externalWord[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -171,7 +173,7 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(externalWord) << '\n';
       }
 
       // write id to corresponding vec
@@ -239,8 +241,8 @@ ad_utility::HashMap<Id, Id> createInternalMapping(ItemVec* elsPtr) {
   for (auto& el : els) {
     if (!first && lastWord != el.first) {
       nextWordId++;
-      lastWord = el.first;
     }
+    lastWord = el.first;
     AD_CHECK(!res.count(el.second.m_id));
     res[el.second.m_id] = nextWordId;
     el.second.m_id = nextWordId;
-- 
2.43.0


From 0ed8144e80f86cb39841575b77de0ba936b3df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:07 +0000
Subject: [PATCH 18/23] fix: lookups in external and text vocabularies and
 ranges of empty prefixes

---
 src/index/ExternalVocabulary.cpp |  2 +-
 src/index/StringSortComparator.h | 13 ++++++++++++-
 src/index/Vocabulary.cpp         |  5 ++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index cc4716d..2a862a5 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -370,7 +370,7 @@ class SimpleStringComparator {
     if (cmpRes != 0 || level != Level::TOTAL) {
       return cmpRes;
     }
-    return a.compare(b) < 0;
+    return a.compare(b);
   }
 
   /**
@@ -414,6 +414,11 @@ class SimpleStringComparator {
       std::string_view s, const Level level) const {
     AD_CHECK(level == Level::PRIMARY)
     auto transformed = _locManager.getSortKey(s, Level::PRIMARY);
+    if (transformed.get().empty()) {
+      // Every value is possible, so we need something bigger than all of them.
+      transformed.get().push_back('\xff');
+      return transformed;
+    }
     unsigned char last = transformed.get().back();
     if (last < std::numeric_limits<unsigned char>::max()) {
       transformed.get().back() += 1;
@@ -603,6 +608,12 @@ class TripleComponentComparator {
       std::string_view s, const Level level) const {
     AD_CHECK(level == Level::PRIMARY)
     auto transformed = extractAndTransformComparable(s, Level::PRIMARY);
+    if (transformed.transformedVal.get().empty()) {
+      // Every value of this datatype is possible, so continue with the next
+      // datatype.
+      transformed.firstOriginalChar++;
+      return transformed;
+    }
     unsigned char last = transformed.transformedVal.get().back();
     if (last < std::numeric_limits<unsigned char>::max()) {
       transformed.transformedVal.get().back() += 1;
diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f59bb9e..f0e2b3f 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -116,7 +116,10 @@ void Vocabulary<S, C>::createFromSet(const ad_utility::HashSet<S>& set) {
   _words.reserve(set.size());
   _words.insert(begin(_words), begin(set), end(set));
   LOG(INFO) << "... sorting ...\n";
-  std::sort(begin(_words), end(_words), _caseComparator);
+  // `getId` looks words up in this order
+  std::sort(begin(_words), end(_words), [this](const auto& a, const auto& b) {
+    return _caseComparator(a, b, SortLevel::TOTAL);
+  });
   LOG(INFO) << "Done creating vocabulary.\n";
 }
 
-- 
2.43.0


From 1e9dc72a90ebc8ebf7792a49d9ec5312ea86fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:39 +0000
Subject: [PATCH 19/23] fix: find predicates of entities without a pattern

A predicate scan stopped at the first identifier that belongs to no entity, although the input need not be sorted. It now skips the row.
---
 src/engine/HasPredicateScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 6624b3b..6aa90bf 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -396,8 +396,6 @@ void HasPredicateScan::computeSubqueryS(
         }
         result(backIdx, input.cols()) = predicateData[j];
       }
-    } else {
-      break;
     }
   }
   *dynResult = result.moveToDynamic();
-- 
2.43.0


From 632478064223a86c5d21d822d6e64850b4631aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:39 +0000
Subject: [PATCH 20/23] fix: look up words with other languages in an index
 without externalized literals

Such words were only searched for in the external vocabulary, which is empty for these indexes.
---
 src/index/Vocabulary.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f0e2b3f..0cee707 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -371,16 +371,16 @@ AccessReturnType_t<StringType> Vocabulary<StringType, C>::at(Id id) const {
 // _____________________________________________________________________________
 template <typename S, typename C>
 bool Vocabulary<S, C>::getId(const string& word, Id* id) const {
-  if (!shouldBeExternalized(word)) {
-    // need the TOTAL level because we want the unique word.
-    *id = lower_bound(word, SortLevel::TOTAL);
-    // works for the case insensitive version because
-    // of the strict ordering.
-    return *id < _words.size() && at(*id) == word;
+  if (shouldBeExternalized(word) && _externalLiterals.getId(word, id)) {
+    *id += _words.size();
+    return true;
   }
-  bool success = _externalLiterals.getId(word, id);
-  *id += _words.size();
-  return success;
+  // Words are only externalized if the index was built this way.
+  // need the TOTAL level because we want the unique word.
+  *id = lower_bound(word, SortLevel::TOTAL);
+  // works for the case insensitive version because
+  // of the strict ordering.
+  return *id < _words.size() && at(*id) == word;
 }
 
 // ___________________________________________________________________________
-- 
2.43.0


From 4e2aa6574128f5b24ebb15c5ea18857471ce862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:39 +0000
Subject: [PATCH 21/23] fix: scans for identifiers behind the last one stored

Looking up an identifier greater than all stored identifiers read behind the end of the block or of the dense metadata.
---
 src/index/Index.cpp         | 4 ++--
 src/index/MetaDataHandler.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..7881288 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1149,7 +1149,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1174,7 +1174,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
diff --git a/src/index/MetaDataHandler.h b/src/index/MetaDataHandler.h
index 8204246..9f954c7 100644
--- a/src/index/MetaDataHandler.h
+++ b/src/index/MetaDataHandler.h
@@ -178,7 +178,7 @@ class MetaDataWrapperDense {
   // ________________________________________________________
   size_t count(Id id) const {
     // can either be 1 or 0 for map-like types
-    return _vec[id] != emptyMetaData;
+    return id < _vec.size() && _vec[id] != emptyMetaData;
   }
 
   // ___________________________________________________________
-- 
2.43.0


From 52cfd65eb070582ffc307ecb55c8b489fde3fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:39 +0000
Subject: [PATCH 22/23] fix: store predicates with the entity they belong to

The predicates of all entities without a pattern were stored with the last entity, and some were left out.
---
 src/index/Index.cpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 7881288..728c929 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -850,18 +850,8 @@ void Index::createPatternsImpl(const string& fileName,
   vector<vector<Id>> hasPredicateTmp;
   if (entityHasPredicate.size() > 0) {
     hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-    size_t pos = 0;
-    for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-      Id current = entityHasPredicate[i][0];
-      while (current > pos) {
-        pos++;
-      }
-      while (i < entityHasPredicate.size() &&
-             entityHasPredicate[i][0] == current) {
-        hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-        i++;
-      }
-      pos++;
+    for (const auto& [entity, predicate] : entityHasPredicate) {
+      hasPredicateTmp[entity].push_back(predicate);
     }
   }
   hasPredicate.build(hasPredicateTmp);
@@ -1068,18 +1058,8 @@ void Index::createFromOnDiskIndex(const string& onDiskBase) {
       vector<vector<Id>> hasPredicateTmp;
       if (entityHasPredicate.size() > 0) {
         hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-        size_t pos = 0;
-        for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-          Id current = entityHasPredicate[i][0];
-          while (current > pos) {
-            pos++;
-          }
-          while (i < entityHasPredicate.size() &&
-                 entityHasPredicate[i][0] == current) {
-            hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-            i++;
-          }
-          pos++;
+        for (const auto& [entity, predicate] : entityHasPredicate) {
+          hasPredicateTmp[entity].push_back(predicate);
         }
       }
       _hasPredicate.build(hasPredicateTmp);
-- 
2.43.0


From b3115432a73343323414d89c5a8bb16fcef11bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:08:16 +0000
Subject: [PATCH 23/23] fix: name externalized predicates in language filters
 as queries do

With externalized predicates, the triples added for language filters used
the internal form of the predicate, so queries did not find them.
---
 src/index/IndexBuilderTypes.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index/IndexBuilderTypes.h b/src/index/IndexBuilderTypes.h
index c307c21..8156a53 100644
--- a/src/index/IndexBuilderTypes.h
+++ b/src/index/IndexBuilderTypes.h
@@ -133,9 +133,14 @@ auto getIdMapLambdas(std::array<ItemMapManager, Parallelism>* itemArrayPtr,
         auto langTagId = map.assignNextId(
             ad_utility::convertLangtagToEntityUri(lt._langtag));
         // get the Id for the tagged predicate, e.g. @en@rdfs:label
+        // Queries name the predicate itself, also if it is externalized.
+        std::string predicate = lt._triple[1];
+        if (predicate[0] == EXTERNALIZED_ENTITIES_PREFIX_CHAR) {
+          predicate[0] = '<';
+        }
         auto langTaggedPredId =
             map.assignNextId(ad_utility::convertToLanguageTaggedPredicate(
-                lt._triple[1], lt._langtag));
+                predicate, lt._langtag));
         auto& spoIds = *(res[0]);  // ids of original triple
         // extra triple <subject> @language@<predicate> <object>
         res[1].emplace(array<Id, 3>{spoIds[0], langTaggedPredId, spoIds[2]});
-- 
2.43.0

