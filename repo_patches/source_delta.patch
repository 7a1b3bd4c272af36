From 65ce32c3a5a495552d2e3a0fe7cd324355161a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/81] fix: start the galloping join's binary search in the
 larger table

With a larger left table the search range started at the position in the
right table. If that was beyond the current left row, rows were skipped.
---
 src/engine/Join.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..5fcd2b9 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -647,7 +647,7 @@ void Join::doGallopInnerJoin(const TagType, const IdTableView<L_WIDTH>& l1,
       }
     } else {
       size_t step = 1;
-      size_t last = j;
+      size_t last = i;
       while (l2(j, jc2) > l1(i, jc1)) {
         last = i;
         i += step;
-- 
2.43.0


From 1cb5d3803706fa950d43758e7f0e2491768b7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:17 +0000
Subject: [PATCH 02/81] fix: take the type of a right-only UNION column from
 the right input

---
 src/engine/Union.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..4548997 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -140,7 +140,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From 4cc9ab5aa49b8175d9a0d72021957cdc22bdaa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:14 +0000
Subject: [PATCH 03/81] fix: keep the rows above the range in an inverse filter
 on sorted input

---
 src/engine/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..fb8b893 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
-- 
2.43.0


From c1d4f11458be8f9cef65a83c2841c5dfdeb2733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:14 +0000
Subject: [PATCH 04/81] fix: compare float columns by value in equality filters

---
 src/engine/Filter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index fb8b893..31aadb4 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -325,7 +325,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() && 
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // an element equal to rhs exists in the vector
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -336,7 +337,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] == rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) == ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::NE:
@@ -349,7 +354,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() && 
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // rhs appears within the input, take all elements before and after it
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -364,7 +370,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] != rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::LT:
@@ -633,7 +643,7 @@ void Filter::computeResultFixedValue(
 
   // interpret the filters right hand side
   size_t lhs = _subtree->getVariableColumn(_lhs);
-  Id rhs;
+  Id rhs = 0;
   Id rhs_upper_for_range;
   bool apply_range_filter = false;
   bool range_filter_inverse = false;
-- 
2.43.0


From 638f3552993827ccdb2eebc341800a9d777d8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:14 +0000
Subject: [PATCH 05/81] fix: filter with <= and > against a constant below the
 whole vocabulary

---
 src/engine/Filter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 31aadb4..c7b9924 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -677,14 +677,18 @@ void Filter::computeResultFixedValue(
             getIndex().getVocab().upper_bound(rhs_string, level);
         apply_range_filter = true;
         range_filter_inverse = _type == SparqlFilter::NE;
+      } else if (_type == SparqlFilter::LE || _type == SparqlFilter::GT) {
+        // All ids up to the upper bound are less or equal. This also works if
+        // the first word of the vocabulary is already greater.
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
+        range_filter_inverse = _type == SparqlFilter::GT;
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
-      } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
-      } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 61f70d8db935d07fcfaffdb11e46afd2f0748da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:14 +0000
Subject: [PATCH 06/81] fix: compare assembled strings by content in equality
 filters

---
 src/engine/Filter.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index c7b9924..6068066 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -722,14 +722,19 @@ void Filter::computeResultFixedValue(
       break;
     case ResultTable::ResultType::LOCAL_VOCAB:
       if (_type == SparqlFilter::EQ || _type == SparqlFilter::NE) {
-        // Find a matching entry in subRes' _localVocab. If _rhs is not in the
-        // _localVocab of subRes r will be equal to  _localVocab.size() and
-        // not match the index of any entry in _localVocab.
-        for (rhs = 0; rhs < subRes->_localVocab->size(); rhs++) {
-          if ((*subRes->_localVocab)[rhs] == _rhs) {
-            break;
-          }
-        }
+        // The same string can have several entries in the _localVocab, so the
+        // strings themselves have to be compared.
+        const auto& vocab = *subRes->_localVocab;
+        const bool keepEqual = _type == SparqlFilter::EQ;
+        getEngine().filter(
+            input,
+            [lhs, keepEqual, &vocab, this](const auto& e) {
+              bool equal = e[lhs] < vocab.size() && vocab[e[lhs]] == _rhs;
+              return equal == keepEqual;
+            },
+            &result);
+        resultTable->_data = result.moveToDynamic();
+        return;
       } else if (_type != SparqlFilter::LANG_MATCHES &&
                  _type != SparqlFilter::PREFIX &&
                  _type != SparqlFilter::REGEX) {
-- 
2.43.0


From e563bee423678cb2a4819343b0f481e38ced1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:54 +0000
Subject: [PATCH 07/81] fix: do not aggregate a row past the end without
 grouping columns

---
 src/engine/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..5b36164 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -624,7 +624,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
-- 
2.43.0


From 6abda0dcd8a55c9963182ab5517993673d75e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/81] fix: divide AVG(DISTINCT ...) by the number of distinct
 values

---
 src/engine/GroupBy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 5b36164..d24c5db 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -188,6 +188,8 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      // the number of values that are averaged
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -198,6 +200,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -218,6 +221,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -248,6 +252,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -265,7 +270,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
-- 
2.43.0


From b864982b84d754c04f8d728bc63c6cc145ef49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:09 +0000
Subject: [PATCH 09/81] fix: write the GROUP_CONCAT(DISTINCT ...) separator
 only between values

---
 src/engine/GroupBy.cpp | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index d24c5db..cc55731 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -303,12 +303,18 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
               distinctHashSet.insert(input(i, a._inCol));
-              out << input(i, a._inCol) << *delim;
+              if (i > blockStart) {
+                out << *delim;
+              }
+              out << input(i, a._inCol);
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
+            if (blockEnd > blockStart) {
+              out << *delim;
+            }
+            out << input(blockEnd, a._inCol);
           }
           distinctHashSet.clear();
         } else {
@@ -326,12 +332,18 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
               distinctHashSet.insert(input(i, a._inCol));
+              if (i > blockStart) {
+                out << *delim;
+              }
               std::memcpy(&f, &input(i, a._inCol), sizeof(float));
-              out << f << *delim;
+              out << f;
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
+            if (blockEnd > blockStart) {
+              out << *delim;
+            }
             std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
             out << f;
           }
@@ -352,11 +364,17 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
               distinctHashSet.insert(input(i, a._inCol));
-              out << index.getTextExcerpt(input(i, a._inCol)) << *delim;
+              if (i > blockStart) {
+                out << *delim;
+              }
+              out << index.getTextExcerpt(input(i, a._inCol));
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
+            if (blockEnd > blockStart) {
+              out << *delim;
+            }
             out << index.getTextExcerpt(input(blockEnd, a._inCol));
           }
           distinctHashSet.clear();
@@ -374,14 +392,19 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
               distinctHashSet.insert(input(i, a._inCol));
+              if (i > blockStart) {
+                out << *delim;
+              }
               // TODO(schnelle): What's the correct way to handle OPTIONAL here
               out << inTable->idToOptionalString(input(i, a._inCol))
-                         .value_or("")
-                  << *delim;
+                         .value_or("");
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
+            if (blockEnd > blockStart) {
+              out << *delim;
+            }
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
             out << inTable->idToOptionalString(input(blockEnd, a._inCol))
                        .value_or("");
@@ -404,19 +427,24 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
             const auto it = distinctHashSet.find(input(i, a._inCol));
             if (it == distinctHashSet.end()) {
               distinctHashSet.insert(input(i, a._inCol));
+              if (i > blockStart) {
+                out << *delim;
+              }
               // TODO(schnelle): What's the correct way to handle OPTIONAL here
               std::string entity =
                   index.idToOptionalString(input(i, a._inCol)).value_or("");
               if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-                out << ad_utility::convertIndexWordToValueLiteral(entity)
-                    << *delim;
+                out << ad_utility::convertIndexWordToValueLiteral(entity);
               } else {
-                out << entity << *delim;
+                out << entity;
               }
             }
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
+            if (blockEnd > blockStart) {
+              out << *delim;
+            }
             // TODO(schnelle): What's the correct way to handle OPTIONAL here
             std::string entity =
                 index.idToOptionalString(input(blockEnd, a._inCol))
-- 
2.43.0


From 5d7d7ab8913e697d018cf057715b79bd2884e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:09 +0000
Subject: [PATCH 10/81] fix: accept a repeated GROUP BY variable

---
 src/engine/GroupBy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index cc55731..33cced3 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -28,6 +28,10 @@ GroupBy::GroupBy(QueryExecutionContext* qec,
 
   // sort the groupByVariables to ensure the cache key is order invariant
   std::sort(_groupByVariables.begin(), _groupByVariables.end());
+  // a variable that is listed several times has only one column
+  _groupByVariables.erase(
+      std::unique(_groupByVariables.begin(), _groupByVariables.end()),
+      _groupByVariables.end());
 
   // The returned columns are all groupByVariables followed by aggregrates
   size_t colIndex = 0;
-- 
2.43.0


From f46c29ab40f9887768f6e2dd960ba280c47aa5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:09 +0000
Subject: [PATCH 11/81] fix: aggregate an empty input without grouping columns
 to one row

---
 src/engine/GroupBy.cpp | 21 +++++++++++++++++++++
 src/engine/GroupBy.h   |  3 ++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 33cced3..d663e90 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -652,6 +652,27 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
                         ResultTable* outTable, const Index& index) const {
   LOG(DEBUG) << "Group by input size " << dynInput.size() << std::endl;
   if (dynInput.size() == 0) {
+    if (groupByCols.empty()) {
+      // Without grouping columns there is always exactly one group.
+      dynResult->emplace_back();
+      for (const GroupBy::Aggregate& a : aggregates) {
+        Id& cell = (*dynResult)(0, a._outCol);
+        switch (a._type) {
+          case ParsedQuery::AggregateType::COUNT:
+          case ParsedQuery::AggregateType::SUM:
+          case ParsedQuery::AggregateType::AVG:
+            // also the representation of the float 0
+            cell = 0;
+            break;
+          case ParsedQuery::AggregateType::GROUP_CONCAT:
+            cell = outTable->_localVocab->size();
+            outTable->_localVocab->push_back("");
+            break;
+          default:
+            cell = ID_NO_VALUE;
+        }
+      }
+    }
     return;
   }
   const IdTableView<IN_WIDTH> input = dynInput.asStaticView<IN_WIDTH>();
diff --git a/src/engine/GroupBy.h b/src/engine/GroupBy.h
index bc7abc1..5a4e108 100644
--- a/src/engine/GroupBy.h
+++ b/src/engine/GroupBy.h
@@ -60,7 +60,8 @@ class GroupBy : public Operation {
   }
 
   virtual bool knownEmptyResult() override {
-    return _subtree->knownEmptyResult();
+    // Without grouping variables the result always consists of one row.
+    return !_groupByVariables.empty() && _subtree->knownEmptyResult();
   }
 
   virtual float getMultiplicity(size_t col) override;
-- 
2.43.0


From c276385b0151053e7d0fe49f31ed97e68973691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:09 +0000
Subject: [PATCH 12/81] fix: find all nodes of a transitive path with a maximum
 length

---
 src/engine/TransitivePath.cpp | 249 +++++++++-------------------------
 1 file changed, 64 insertions(+), 185 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..a1ba517 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -209,6 +209,50 @@ size_t TransitivePath::getCostEstimate() {
   return costEstimate;
 }
 
+// _____________________________________________________________________________
+// Calls `action` exactly once for every node that can be reached from `start`
+// on some path whose length is at least `minDist` and at most `maxDist`. The
+// nodes are visited in the order of their distance, so that every node is
+// expanded with the most remaining steps.
+template <typename Map, typename CheckTimeout, typename Action>
+static void forEachReachableNode(const Map& edges, Id start, size_t minDist,
+                                 size_t maxDist, CheckTimeout checkTimeout,
+                                 Action action) {
+  if (minDist == 0) {
+    AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+             "The TransitivePath operation does not support a minimum "
+             "distance of 0 (use at least one instead).");
+  }
+  // The nodes that have already been reported. This avoids cycles.
+  ad_utility::HashSet<Id> marks;
+  // Below the minimum distance a node can be visited at several distances.
+  ad_utility::HashSet<Id> currentLevel;
+  std::vector<Id> frontier{start};
+  std::vector<Id> next;
+  for (size_t dist = 1; dist <= maxDist && !frontier.empty(); dist++) {
+    bool report = dist >= minDist;
+    for (Id node : frontier) {
+      auto it = edges.find(node);
+      if (it == edges.end()) {
+        continue;
+      }
+      for (Id child : *it->second) {
+        checkTimeout();
+        if (!(report ? marks : currentLevel).insert(child).second) {
+          continue;
+        }
+        if (report) {
+          action(child);
+        }
+        next.push_back(child);
+      }
+    }
+    currentLevel.clear();
+    std::swap(frontier, next);
+    next.clear();
+  }
+}
+
 // _____________________________________________________________________________
 template <int SUB_WIDTH>
 void TransitivePath::computeTransitivePath(IdTable* res, const IdTable& sub,
@@ -319,72 +363,16 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
-  for (size_t i = 0; i < nodes.size(); i++) {
-    MapIt rootEdges = edges.find(nodes[i]);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
-    }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
-          if constexpr (rightIsVar) {
-            res.push_back({nodes[i], child});
-          } else {
-            res.push_back({child, nodes[i]});
-          }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
-        }
-      }
-    }
-
-    if (i + 1 < nodes.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
+  // For every node search the graph
+  for (Id node : nodes) {
+    forEachReachableNode(edges, node, minDist, maxDist, checkTimeoutHashSet,
+                         [&res, node](Id child) {
+                           if constexpr (rightIsVar) {
+                             res.push_back({node, child});
+                           } else {
+                             res.push_back({child, node});
+                           }
+                         });
   }
 
   *dynRes = res.moveToDynamic();
@@ -426,18 +414,7 @@ void TransitivePath::computeTransitivePathLeftBound(
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
+  // For every node search the graph
   size_t last_elem = std::numeric_limits<size_t>::max();
   size_t last_result_begin = 0;
   size_t last_result_end = 0;
@@ -458,39 +435,9 @@ void TransitivePath::computeTransitivePathLeftBound(
     }
     last_elem = left[i][leftSideCol];
     last_result_begin = res.size();
-    MapIt rootEdges = edges.find(last_elem);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
-    }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
+    forEachReachableNode(
+        edges, last_elem, minDist, maxDist, checkTimeoutHashSet,
+        [&](Id child) {
           if (rightIsVar || child == rightValue) {
             size_t row = res.size();
             res.emplace_back();
@@ -504,20 +451,7 @@ void TransitivePath::computeTransitivePathLeftBound(
               }
             }
           }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
-        }
-      }
-    }
-
-    if (i + 1 < left.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
+        });
 
     last_result_end = res.size();
   }
@@ -563,19 +497,7 @@ void TransitivePath::computeTransitivePathRightBound(
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
+  // For every node search the graph
   size_t last_elem = std::numeric_limits<size_t>::max();
   size_t last_result_begin = 0;
   size_t last_result_end = 0;
@@ -596,39 +518,9 @@ void TransitivePath::computeTransitivePathRightBound(
     }
     last_elem = right(i, rightSideCol);
     last_result_begin = res.size();
-    MapIt rootEdges = edges.find(last_elem);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
-    }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
+    forEachReachableNode(
+        edges, last_elem, minDist, maxDist, checkTimeoutHashSet,
+        [&](Id child) {
           if (leftIsVar || child == leftValue) {
             size_t row = res.size();
             res.emplace_back();
@@ -642,20 +534,7 @@ void TransitivePath::computeTransitivePathRightBound(
               }
             }
           }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
-        }
-      }
-    }
-
-    if (i + 1 < right.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
+        });
 
     last_result_end = res.size();
   }
-- 
2.43.0


From fc2c75e1531e7c841ad1e67272071a603d4b9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:09 +0000
Subject: [PATCH 13/81] fix: keep the other columns of rows that share a
 transitive path's end

---
 src/engine/TransitivePath.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index a1ba517..95b3113 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -427,9 +427,17 @@ void TransitivePath::computeTransitivePathLeftBound(
       res.resize(res.size() + num_new);
       checkTimeoutAfterNCalls(num_new * resWidth);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
+        for (size_t c = 0; c < 2; c++) {
           res(res_row + j, c) = res(last_result_begin + j, c);
         }
+        // the other columns come from the current row
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < leftSideCol) {
+            res(res_row + j, k) = left(i, k - 2);
+          } else if (k - 2 > leftSideCol) {
+            res(res_row + j, k - 1) = left(i, k - 2);
+          }
+        }
       }
       continue;
     }
@@ -509,9 +517,17 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t res_row = res.size();
       res.resize(res.size() + num_new);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
+        for (size_t c = 0; c < 2; c++) {
           res(res_row + j, c) = res(last_result_begin + j, c);
         }
+        // the other columns come from the current row
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < rightSideCol) {
+            res(res_row + j, k) = right(i, k - 2);
+          } else if (k - 2 > rightSideCol) {
+            res(res_row + j, k - 1) = right(i, k - 2);
+          }
+        }
       }
       checkTimeoutAfterNCalls(num_new * resWidth);
       continue;
-- 
2.43.0


From b9c934b5531f550923f899bd0fdc8b45ed6b1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:09 +0000
Subject: [PATCH 14/81] fix: answer transitive paths between two fixed ends

---
 src/engine/TransitivePath.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 95b3113..5c4fe8f 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -301,10 +301,6 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
   using Map = ad_utility::HashMap<Id, std::shared_ptr<ad_utility::HashSet<Id>>>;
   using MapIt = Map::iterator;
 
-  if constexpr (!leftIsVar && !rightIsVar) {
-    return;
-  }
-
   const IdTableView<SUB_WIDTH> sub = dynSub.asStaticView<SUB_WIDTH>();
   IdTableStatic<2> res = dynRes->moveToStatic<2>();
 
@@ -319,8 +315,7 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
   };
 
   // initialize the map from the subresult
-  if constexpr (rightIsVar) {
-    (void)rightValue;
+  if constexpr (rightIsVar || !leftIsVar) {
     if (!leftIsVar) {
       nodes.push_back(leftValue);
     }
@@ -366,8 +361,14 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
   // For every node search the graph
   for (Id node : nodes) {
     forEachReachableNode(edges, node, minDist, maxDist, checkTimeoutHashSet,
-                         [&res, node](Id child) {
-                           if constexpr (rightIsVar) {
+                         [&res, node, rightValue](Id child) {
+                           (void)rightValue;
+                           if constexpr (!leftIsVar && !rightIsVar) {
+                             // both ends are fixed
+                             if (child == rightValue) {
+                               res.push_back({node, child});
+                             }
+                           } else if constexpr (rightIsVar) {
                              res.push_back({node, child});
                            } else {
                              res.push_back({child, node});
-- 
2.43.0


From 64cb942905e526d4cb88d47c91c86cda0658192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 15/81] fix: stop the announced order of ORDER BY at a
 descending column

The columns after a descending column were announced as sorted.
They are only sorted among rows that agree on the descending column.
---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..c30d2d7 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only ascending columns count as sorted. The columns that follow a
+      // descending one are only sorted among the rows that agree on it.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0


From e68faa3237b8a3a0b24edec8489fdddb8de5da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 16/81] fix: assign the right columns of a multi column join by
 position

The variables of the right input were numbered in the iteration order
of a hash map. The result has them in the order of the input columns.
---
 src/engine/MultiColumnJoin.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..f794d9c 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,22 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  size_t leftSize = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
+    size_t columnIndex = leftSize + it.second;
     bool isJoinColumn = false;
+    // Reduce the index for every column of _right that is being joined on,
+    // and the index of which is smaller than the index of it.
     for (const std::array<Id, 2>& a : _joinColumns) {
-      if (a[1] == it.second) {
+      if (a[1] < it.second) {
+        columnIndex--;
+      } else if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
     }
     if (!isJoinColumn) {
       retVal[it.first] = columnIndex;
-      columnIndex++;
     }
   }
   return retVal;
-- 
2.43.0


From 8588dc461a48cbf25991aa7c4a70f20cf90b746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 17/81] fix: add the column assignment to the cache key of
 UNION

Unions of the same inputs with differently named variables shared a key
although their columns differ.
---
 src/engine/Union.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 4548997..da93933 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,19 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  for (size_t i = 0; i < indent; ++i) {
+    os << " ";
+  }
+  // The columns of the inputs are assigned by the names of their variables,
+  // which are not part of the representation of the inputs.
+  os << "columns: [";
+  for (const auto& origin : _columnOrigins) {
+    for (size_t col : origin) {
+      os << (col == NO_COLUMN ? "-" : std::to_string(col)) << ' ';
+    }
+    os << "& ";
+  }
+  os << "]";
   return os.str();
 }
 
-- 
2.43.0


From e50e5fa6e044fb5f28b23e79cc6730878807771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 18/81] fix: add the optional sides to the cache key of
 OPTIONAL

A OPTIONAL B and B OPTIONAL A shared a key.
---
 src/engine/OptionalJoin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..2a902c0 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -44,7 +44,7 @@ string OptionalJoin::asString(size_t indent) const {
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     os << _joinColumns[i][0] << (i < _joinColumns.size() - 1 ? " & " : "");
   };
-  os << "]\n";
+  os << "]" << (_leftOptional ? " (optional)" : "") << "\n";
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
@@ -53,7 +53,7 @@ string OptionalJoin::asString(size_t indent) const {
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     os << _joinColumns[i][1] << (i < _joinColumns.size() - 1 ? " & " : "");
   };
-  os << "]";
+  os << "]" << (_rightOptional ? "" : " (not optional)");
   return os.str();
 }
 
-- 
2.43.0


From 411a39787b28729f8e4cdfe3adbbea34f88f2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 19/81] fix: add the matched columns to the cache key of MINUS

Two differences of the same inputs that match different columns shared
a key.
---
 src/engine/Minus.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..8bde3f2 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -37,6 +37,11 @@ string Minus::asString(size_t indent) const {
   }
   os << "MINUS\n" << _left->asString(indent) << "\n";
   os << _right->asString(indent) << " ";
+  os << "matched-columns: [";
+  for (const auto& cols : _matchedColumns) {
+    os << cols[0] << "=" << cols[1] << ' ';
+  }
+  os << "]";
   return os.str();
 }
 
-- 
2.43.0


From 5c44abb43d96c955af403c714e515981a8adb41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 20/81] fix: add the distinct columns to the cache key of
 DISTINCT

DISTINCT on different columns of the same input shared a key.
---
 src/engine/Distinct.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..5dcf384 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,11 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct " << _subtree->asString(indent) << " on columns: [";
+  for (size_t col : _keepIndices) {
+    os << col << ' ';
+  }
+  os << "]";
   return os.str();
 }
 
-- 
2.43.0


From 4ca2bd2a03f13471d69c02b19865a3540e20d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 21/81] fix: complete the cache key of GROUP BY

The key contained neither the columns that are grouped nor whether an
aggregate is DISTINCT. Separators are now preceded by their length.
---
 src/engine/GroupBy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index d663e90..e65f174 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -58,12 +58,15 @@ string GroupBy::asString(size_t indent) const {
   }
   os << "GROUP_BY ";
   for (const std::string& var : _groupByVariables) {
-    os << varMap.at(var) << ", ";
+    os << varMapInput.at(var) << ", ";
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
+    if (p._isDistinct) {
+      os << " DISTINCT";
+    }
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
-      os << p._delimiter;
+      os << ' ' << p._delimiter.size() << ' ' << p._delimiter;
     }
 
     os << ' ' << varMapInput.at(p._inVarName) << ' '
-- 
2.43.0


From b2ddcdeee2fc807e3d1af44f34afeaf8db1c24fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 22/81] fix: add the columns of bound sides to the cache key of
 paths

Paths whose ends are bound by different columns of the same input
shared a key.
---
 src/engine/TransitivePath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 5c4fe8f..1c21234 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree (col " << _leftSideCol << "):\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree (col " << _rightSideCol << "):\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
-- 
2.43.0


From 381e2bb64bf6cb1854f2c508d621df97a37927d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 23/81] fix: add the subject column to the cache key of
 has-predicate scans

Scans for different columns of the same input shared a key.
---
 src/engine/HasPredicateScan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..46094e7 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = column " << _subtreeColIndex << " of "
+         << _subtree->asString(indent);
       break;
   }
   return os.str();
-- 
2.43.0


From f2a03a297f88ebf446445ff4857fb9714e5cbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 24/81] fix: distinguish filters of different columns in the
 result cache

The key of a filter consists of the names of its variables and the key
of its input. The latter does not depend on the names, so that filters
on different columns shared a key. The flags of a regex filter could
also be confused with a part of the expression.
---
 src/engine/Filter.cpp    | 15 +++++++++++++++
 src/engine/Filter.h      |  4 ++++
 src/engine/Operation.cpp |  5 ++++-
 src/engine/Operation.h   |  5 +++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 6068066..75b5d0d 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -87,6 +87,21 @@ string Filter::asString(size_t indent) const {
   return os.str();
 }
 
+// _____________________________________________________________________________
+string Filter::additionalCacheKey() const {
+  std::ostringstream os;
+  os << "\nFILTER columns: " << _subtree->getVariableColumn(_lhs);
+  if (!_rhs.empty() && _rhs[0] == '?' && _subtree->varCovered(_rhs)) {
+    os << " and " << _subtree->getVariableColumn(_rhs);
+  }
+  for (const auto& lhs : _additionalLhs) {
+    os << " or " << _subtree->getVariableColumn(lhs);
+  }
+  os << (_regexIgnoreCase ? " ignoring case" : "")
+     << (_lhsAsString ? " as string" : "");
+  return os.str();
+}
+
 string Filter::getDescriptor() const {
   std::ostringstream os;
   os << "Filter ";
diff --git a/src/engine/Filter.h b/src/engine/Filter.h
index 07ea585..6834e4e 100644
--- a/src/engine/Filter.h
+++ b/src/engine/Filter.h
@@ -26,6 +26,10 @@ class Filter : public Operation {
 
   virtual string asString(size_t indent = 0) const override;
 
+  // The columns of the variables and the flags, `asString` only contains the
+  // names of the variables.
+  virtual string additionalCacheKey() const override;
+
   virtual string getDescriptor() const override;
 
   virtual vector<size_t> resultSortedOn() const override {
diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index d2b6f9d..45f0b6b 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -62,7 +62,10 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   ad_utility::Timer timer;
   timer.start();
   auto& cache = _executionContext->getQueryTreeCache();
-  const string cacheKey = asString();
+  string cacheKey = asString() + additionalCacheKey();
+  forAllDescendants([&cacheKey](QueryExecutionTree* child) {
+    cacheKey += child->getRootOperation()->additionalCacheKey();
+  });
   const bool pinFinalResultButNotSubtrees =
       _executionContext->_pinResult && isRoot;
   const bool pinResult =
diff --git a/src/engine/Operation.h b/src/engine/Operation.h
index 4742a7c..a6ac438 100644
--- a/src/engine/Operation.h
+++ b/src/engine/Operation.h
@@ -71,6 +71,11 @@ class Operation {
   // This should possible act like an ID for each subtree.
   virtual string asString(size_t indent = 0) const = 0;
 
+  // Properties of this operation (not of its children) that influence the
+  // result but cannot be determined from `asString`. They become part of the
+  // key under which a result is cached.
+  virtual string additionalCacheKey() const { return ""; }
+
   // Gets a very short (one line without line ending) descriptor string for
   // this Operation.  This string is used in the RuntimeInformation
   virtual string getDescriptor() const = 0;
-- 
2.43.0


From 365f1b8a5fecc728f79089c77da07c913a526c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:05 +0000
Subject: [PATCH 25/81] fix: let the cache erase an entry that is not pinned

The size of the erased entry was taken from the handle instead of the value
it refers to, which did not compile.
---
 src/util/Cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Cache.h b/src/util/Cache.h
index d89c9f0..5533392 100644
--- a/src/util/Cache.h
+++ b/src/util/Cache.h
@@ -274,7 +274,7 @@ class FlexibleCache {
       return;
     }
     // the entry exists in the non-pinned part of the cache, erase it.
-    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second);
+    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second.value().value());
     _entries.erase(std::move(mapIt->second));
     _accessMap.erase(mapIt);
   }
-- 
2.43.0


From 3a6c3d7fa509dd5c48226d83a58e2d12ca3062b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:05 +0000
Subject: [PATCH 26/81] fix: account only for memory that was really allocated

A request whose size in bytes overflows was checked against the limit with
the wrapped size. A request that failed in the underlying allocator stayed
accounted for.
---
 src/util/AllocatorWithLimit.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/util/AllocatorWithLimit.h b/src/util/AllocatorWithLimit.h
index 7d6f568..76e087f 100644
--- a/src/util/AllocatorWithLimit.h
+++ b/src/util/AllocatorWithLimit.h
@@ -6,6 +6,7 @@
 #define QLEVER_ALLOCATORWITHLIMIT_H
 
 #include <atomic>
+#include <limits>
 #include <memory>
 
 #include "Synchronized.h"
@@ -138,11 +139,22 @@ class AllocatorWithLimit {
   // An allocator must have a function "allocate" with exactly this signature.
   // TODO<C++20> : the exact signature of allocate changes
   T* allocate(std::size_t n) {
+    // If the number of bytes cannot be represented, it exceeds every limit.
+    if (n > std::numeric_limits<size_t>::max() / sizeof(T)) {
+      throw detail::AllocationExceedsLimitException{
+          std::numeric_limits<size_t>::max(), numFreeBytes()};
+    }
     // Subtract the amount of memory we want to allocate from the amount of
     // memory left. This will throw an exception if not enough memory is left.
     memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));
     // the actual allocation
-    return allocator_.allocate(n);
+    try {
+      return allocator_.allocate(n);
+    } catch (...) {
+      // Nothing was allocated, so nothing may be accounted for.
+      memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
+      throw;
+    }
   }
 
   // An allocator must have a function "deallocate" with exactly this signature.
-- 
2.43.0


From 36ab94f2f18ae1c7ccba70b745a0ddaf9f1f164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 27/81] fix: accept valid numeric escapes and reject malformed
 ones

A numeric escape at the end of a literal or IRI was rejected. Digits that are
not hexadecimal and numbers that are no Unicode characters were accepted. A
literal that consists of a single quote was read beyond its end.
---
 src/parser/RdfEscaping.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..cc9cd70 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -17,11 +17,17 @@ namespace detail {
 
 /// Turn a sequence of characters that encode hexadecimal numbers(e.g. "00e4")
 /// into the corresponding UTF-8 string (e.g. "ä").
+/// Throw an exception if a character is not a hexadecimal digit or if the
+/// number is not a Unicode character.
 std::string hexadecimalCharactersToUtf8(std::string_view hex) {
+  for (const char c : hex) {
+    AD_CHECK(std::isxdigit(static_cast<unsigned char>(c)));
+  }
   UChar32 x;
   std::stringstream sstream;
   sstream << std::hex << hex;
   sstream >> x;
+  AD_CHECK(sstream && x <= 0x10FFFF && !(x >= 0xD800 && x <= 0xDFFF));
   std::string res;
   icu::UnicodeString(x).toUTF8String(res);
   return res;
@@ -76,7 +82,7 @@ void unescapeStringAndNumericEscapes(InputIterator beginIterator,
   auto pushNumericEscape = [&outputIterator, &endIterator](const auto& iterator,
                                                            size_t length) {
     if constexpr (!acceptOnlyBackslashAndNewline) {
-      AD_CHECK(iterator + length < endIterator);
+      AD_CHECK(iterator + length <= endIterator);
       auto unesc =
           hexadecimalCharactersToUtf8(std::string_view(iterator, length));
       std::copy(unesc.begin(), unesc.end(), outputIterator);
@@ -186,12 +192,14 @@ std::string normalizeRDFLiteral(const std::string_view origLiteral) {
   // '''literal''' the input has, and strip all the quotes.
   if (ad_utility::startsWith(literal, "\"\"\"") ||
       ad_utility::startsWith(literal, "'''")) {
+    AD_CHECK(literal.size() >= 6);
     AD_CHECK(ad_utility::endsWith(literal, literal.substr(0, 3)));
     literal.remove_prefix(3);
     literal.remove_suffix(3);
   } else {
     AD_CHECK(ad_utility::startsWith(literal, "\"") ||
              ad_utility::startsWith(literal, "'"));
+    AD_CHECK(literal.size() >= 2);
     AD_CHECK(ad_utility::endsWith(literal, literal.substr(0, 1)));
     literal.remove_prefix(1);
     literal.remove_suffix(1);
-- 
2.43.0


From a823d85ebb0eeaeda56b6f85c2554d89f8e9eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 28/81] fix: escape all control characters in JSON strings

Carriage returns and most control characters were written as they are, and
vertical tabs and null bytes were written as escapes that JSON does not have.
---
 src/util/StringUtils.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/util/StringUtils.h b/src/util/StringUtils.h
index 52f4b26..4c134e5 100644
--- a/src/util/StringUtils.h
+++ b/src/util/StringUtils.h
@@ -396,8 +396,7 @@ string toJson(const std::optional<string>& input) {
   for (const auto& c : orig) {
     switch (c) {
       case '\t':
-      case '\v':
-      case '\0':
+      case '\r':
       case '\f':
       case '\b':
       case '\n':
@@ -406,6 +405,10 @@ string toJson(const std::optional<string>& input) {
         rsize++;
         continue;
       default:
+        // other control characters become \u00XX
+        if (static_cast<unsigned char>(c) < 0x20) {
+          rsize += 5;
+        }
         continue;
     }
   }
@@ -417,11 +420,8 @@ string toJson(const std::optional<string>& input) {
       case '\t':
         ret += "\\t";
         continue;
-      case '\v':
-        ret += "\\v";
-        continue;
-      case '\0':
-        ret += "\\0";
+      case '\r':
+        ret += "\\r";
         continue;
       case '\f':
         ret += "\\f";
@@ -435,9 +435,17 @@ string toJson(const std::optional<string>& input) {
       case '\"':
       case '\\':
         ret += '\\';
-        [[fallthrough]];
-      default:
         ret += c;
+        continue;
+      default:
+        if (static_cast<unsigned char>(c) < 0x20) {
+          const char* hex = "0123456789abcdef";
+          ret += "\\u00";
+          ret += hex[c >> 4];
+          ret += hex[c & 15];
+        } else {
+          ret += c;
+        }
     }
   }
   ret += '"';
-- 
2.43.0


From 3ff1a7306bfaa439d6b1c3fc17240889628a8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 29/81] fix: keep invalid bytes when changing the case of a
 string

A byte that is not part of a valid multi-byte character made the conversion
step back and append the same characters forever.
---
 src/util/StringUtils.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/util/StringUtils.h b/src/util/StringUtils.h
index 4c134e5..b8b84cf 100644
--- a/src/util/StringUtils.h
+++ b/src/util/StringUtils.h
@@ -252,11 +252,15 @@ string getLowercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
-      // However, this usually means that the locale is not utf8.
+      // There is no valid multi-byte character. This often means that the
+      // locale is not utf8. Keep the byte as it is.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        retVal += orig[i];
+        state = std::mbstate_t();
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towlower(static_cast<wint_t>(wChar))),
@@ -281,11 +285,15 @@ string getUppercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
-      // However, this usually means that the locale is not utf8.
+      // There is no valid multi-byte character. This often means that the
+      // locale is not utf8. Keep the byte as it is.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        retVal += orig[i];
+        state = std::mbstate_t();
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towupper(static_cast<wint_t>(wChar))),
-- 
2.43.0


From c13b1dbae1467c99e3e9b76d002268efaafa8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 30/81] fix: start N-Triples literals at their opening quote

An escaped quote followed by a blank ended the literal.
---
 src/parser/NTriplesParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/NTriplesParser.cpp b/src/parser/NTriplesParser.cpp
index 7b79d43..22c48f1 100644
--- a/src/parser/NTriplesParser.cpp
+++ b/src/parser/NTriplesParser.cpp
@@ -74,7 +74,11 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
       }
     } else {
       // Literal
-      j = line.find('\"', i + 1);
+      if (line[i] != '\"') {
+        AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+                 "Illegal literal in : " + line);
+      }
+      j = i + 1;
       bool escape = false;
       while (j < line.size()) {
         if (!escape && line[j] == '\\') {
-- 
2.43.0


From ad8ad01e9bde935b6880f1f8ccb53f5f72ef938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 31/81] fix: export all rows behind an offset if there is no
 limit

The sum of the offset and the limit overflowed.
---
 src/engine/QueryExecutionTree.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index e5fea88..c8181ed 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -110,7 +110,10 @@ void QueryExecutionTree::writeResultToStream(std::ostream& out,
   }
 
   const IdTable& data = res->_data;
-  size_t upperBound = std::min<size_t>(offset + limit, data.size());
+  // Note that `offset + limit` might overflow.
+  size_t upperBound =
+      offset < data.size() ? offset + std::min(limit, data.size() - offset)
+                           : data.size();
   writeTable(data, sep, offset, upperBound, validIndices, out);
 
   LOG(DEBUG) << "Done creating readable result.\n";
@@ -210,7 +213,10 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
     return nullptr;
   };
 
-  const auto upperBound = std::min(data.size(), limit + from);
+  // Note that `from + limit` might overflow.
+  const size_t upperBound = from < data.size()
+                                ? from + std::min(limit, data.size() - from)
+                                : data.size();
 
   for (size_t i = from; i < upperBound; ++i) {
     json.emplace_back();
-- 
2.43.0


From cea0a50e904a708ba502ac88408ac82a797bf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:51 +0000
Subject: [PATCH 32/81] fix: answer every request

A malformed request line or a query that is not valid UTF-8 ended the server.
A query that contains the word HTTP was cut off there. A parameter without a
value was merged with the next one.
---
 src/engine/Server.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c84d8b7..9a79300 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -16,6 +16,20 @@
 #include "./Server.h"
 #include "QueryPlanner.h"
 
+namespace {
+// Find the protocol ("HTTP/...") at the end of a request line. The word itself
+// may also occur in the query.
+size_t findProtocol(const string& request) {
+  size_t pos = request.rfind(" HTTP");
+  return pos == string::npos ? pos : pos + 1;
+}
+
+// Strings that are not valid UTF-8 must not make the whole response fail.
+string toString(const nlohmann::json& j) {
+  return j.dump(4, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+}  // namespace
+
 // _____________________________________________________________________________
 Server::~Server() {
   if (_initialized) {
@@ -108,11 +122,13 @@ void Server::process(Socket* client) {
              << " and headers with total size: " << headers.size() << endl;
 
   size_t indexOfGET = request.find("GET");
-  size_t indexOfHTTP = request.find("HTTP");
+  size_t indexOfHTTP = findProtocol(request);
   size_t upper = indexOfHTTP;
 
-  if (indexOfGET != request.npos && indexOfHTTP != request.npos) {
-    size_t indexOfQuest = request.find("?", indexOfGET);
+  // There has to be at least "GET /" in front of the protocol.
+  if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
+      indexOfGET + 5 < indexOfHTTP) {
+    size_t indexOfQuest = request.find("?", indexOfGET + 5);
     if (indexOfQuest != string::npos && indexOfQuest < indexOfHTTP) {
       upper = indexOfQuest + 1;
     }
@@ -261,7 +277,7 @@ Server::ParamValueMap Server::parseHttpRequest(
   // Parse the HTTP Request.
 
   size_t indexOfGET = httpRequest.find("GET");
-  size_t indexOfHTTP = httpRequest.find("HTTP");
+  size_t indexOfHTTP = findProtocol(httpRequest);
 
   if (indexOfGET == httpRequest.npos || indexOfHTTP == httpRequest.npos) {
     AD_THROW(ad_semsearch::Exception::BAD_REQUEST,
@@ -282,7 +298,7 @@ Server::ParamValueMap Server::parseHttpRequest(
   size_t next = request.find('&', index + 1);
   while (next != request.npos) {
     size_t posOfEq = request.find('=', index + 1);
-    if (posOfEq == request.npos) {
+    if (posOfEq == request.npos || posOfEq > next) {
       AD_THROW(ad_semsearch::Exception::BAD_REQUEST,
                "Parameter without \"=\" in HTTP Request.\n" + httpRequest);
     }
@@ -405,7 +421,7 @@ string Server::composeResponseJson(const ParsedQuery& query,
   j["time"]["total"] = std::to_string(requestTimer.usecs() / 1000.0) + "ms";
   j["time"]["computeResult"] = std::to_string(compResultUsecs / 1000.0) + "ms";
 
-  return j.dump(4);
+  return toString(j);
 }
 
 // _____________________________________________________________________________
@@ -440,7 +456,7 @@ string Server::composeResponseJson(const string& query,
   j["time"]["total"] = requestTimer.msecs();
   j["time"]["computeResult"] = requestTimer.msecs();
   j["exception"] = exception.what();
-  return j.dump(4);
+  return toString(j);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 7152ec95698c88378cdad42a7c713e753257e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:59 +0000
Subject: [PATCH 33/81] fix: do not calculate with unbound counts in BIND

---
 src/engine/Bind.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/Bind.cpp b/src/engine/Bind.cpp
index a320b64..dab9c50 100644
--- a/src/engine/Bind.cpp
+++ b/src/engine/Bind.cpp
@@ -216,7 +216,10 @@ void Bind::computeBinaryOperationBind(
       float& value = colIdx == 0 ? value1 : value2;
       // CASE 1: Verbatim value (like value from a COUNT).
       if (inputTypes[colIdx] == ResultTable::ResultType::VERBATIM) {
-        value = input(i, columns[colIdx]);
+        // An unbound value is not a number.
+        if (input(i, columns[colIdx]) != ID_NO_VALUE) {
+          value = input(i, columns[colIdx]);
+        }
         // CASE 2: Value stored as float.
       } else if (inputTypes[colIdx] == ResultTable::ResultType::FLOAT) {
         std::memcpy(&value, &input(i, columns[colIdx]), sizeof(float));
-- 
2.43.0


From a5a6435b903bae4745602db3c9184edaa7649b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:49 +0000
Subject: [PATCH 34/81] fix: do not read beyond the block when scanning for a
 missing key

The scan of a relation with blocks read the entry at the end of the block
when all keys of the block are smaller than the requested one.
---
 src/index/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..7881288 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1149,7 +1149,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1174,7 +1174,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
-- 
2.43.0


From b9ea8e2a6e97e6e6fda7beed0e6d74e80cbacbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:49 +0000
Subject: [PATCH 35/81] fix: ids beyond the vocabulary have no relation

Looking up the relation of an unbound value or a number read beyond the end of
the memory mapped metadata.
---
 src/index/MetaDataHandler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/MetaDataHandler.h b/src/index/MetaDataHandler.h
index 8204246..9f954c7 100644
--- a/src/index/MetaDataHandler.h
+++ b/src/index/MetaDataHandler.h
@@ -178,7 +178,7 @@ class MetaDataWrapperDense {
   // ________________________________________________________
   size_t count(Id id) const {
     // can either be 1 or 0 for map-like types
-    return _vec[id] != emptyMetaData;
+    return id < _vec.size() && _vec[id] != emptyMetaData;
   }
 
   // ___________________________________________________________
-- 
2.43.0


From 7822df29d74190ec0240158812f41926ca904047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:39:58 +0000
Subject: [PATCH 36/81] fix: keep the predicates of every entity without a
 pattern

The predicates of entities whose pattern is not among the stored ones were all
attached to the last such entity, and the first predicate of each further
entity was lost.
---
 src/index/Index.cpp | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 7881288..2d4d8ae 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -850,18 +850,9 @@ void Index::createPatternsImpl(const string& fileName,
   vector<vector<Id>> hasPredicateTmp;
   if (entityHasPredicate.size() > 0) {
     hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-    size_t pos = 0;
     for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-      Id current = entityHasPredicate[i][0];
-      while (current > pos) {
-        pos++;
-      }
-      while (i < entityHasPredicate.size() &&
-             entityHasPredicate[i][0] == current) {
-        hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-        i++;
-      }
-      pos++;
+      hasPredicateTmp[entityHasPredicate[i][0]].push_back(
+          entityHasPredicate[i][1]);
     }
   }
   hasPredicate.build(hasPredicateTmp);
@@ -1068,18 +1059,9 @@ void Index::createFromOnDiskIndex(const string& onDiskBase) {
       vector<vector<Id>> hasPredicateTmp;
       if (entityHasPredicate.size() > 0) {
         hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-        size_t pos = 0;
         for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-          Id current = entityHasPredicate[i][0];
-          while (current > pos) {
-            pos++;
-          }
-          while (i < entityHasPredicate.size() &&
-                 entityHasPredicate[i][0] == current) {
-            hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-            i++;
-          }
-          pos++;
+          hasPredicateTmp[entityHasPredicate[i][0]].push_back(
+              entityHasPredicate[i][1]);
         }
       }
       _hasPredicate.build(hasPredicateTmp);
-- 
2.43.0


From 64ba5f070fcf3566adb9a987f91bc5c78b5d5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:21 +0000
Subject: [PATCH 37/81] fix: keep the local vocabulary in a predicate scan of a
 subquery

The columns of the subquery may hold texts that only its local vocabulary
contains.
---
 src/engine/HasPredicateScan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 46094e7..8a6ac4c 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -247,6 +247,7 @@ void HasPredicateScan::computeResult(ResultTable* result) {
                                   subresult->_resultTypes.begin(),
                                   subresult->_resultTypes.end());
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
+      result->_localVocab = subresult->_localVocab;
       int inWidth = subresult->_data.cols();
       int outWidth = result->_data.cols();
       CALL_FIXED_SIZE_2(inWidth, outWidth, HasPredicateScan::computeSubqueryS,
-- 
2.43.0


From b722b29290f807bbf9b9598fa9b512f69d04a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:59 +0000
Subject: [PATCH 38/81] fix: continue a predicate scan after an entity without
 predicates

A row whose entity had no predicates ended the scan, so that the rows after it
were lost.
---
 src/engine/HasPredicateScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 8a6ac4c..46ba854 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -397,8 +397,6 @@ void HasPredicateScan::computeSubqueryS(
         }
         result(backIdx, input.cols()) = predicateData[j];
       }
-    } else {
-      break;
     }
   }
   *dynResult = result.moveToDynamic();
-- 
2.43.0


From 08df78d1815a54d5dd708f1c9edebd34d4f4c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:42 +0000
Subject: [PATCH 39/81] fix: fill all entity columns of a filtered text result

With several text variables and a filter on a single column, the first entity
column was left unset and the last one overwrote its predecessor.
---
 src/index/FTSAlgorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/FTSAlgorithms.cpp b/src/index/FTSAlgorithms.cpp
index 356a758..0361b70 100644
--- a/src/index/FTSAlgorithms.cpp
+++ b/src/index/FTSAlgorithms.cpp
@@ -1307,7 +1307,7 @@ void FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts(
       result(n, 1) = rscore;
       size_t off = 2;
       for (size_t i = 1; i < keyEids.size(); i++) {
-        result(n, 2 + i) = keyEids[i];
+        result(n, off) = keyEids[i];
         off++;
       }
       result(n, off) = keyEids[0];
-- 
2.43.0


From f6eef00376e71e0ec1a5474ee325dc2bc125e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 40/81] fix: return no entities for a word that occurs with
 none

Reading the empty entity list of a block failed a check, so that a search for
entities next to such a word ended in an error.
---
 src/index/Index.Text.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..da2795b 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -901,6 +901,10 @@ void Index::readGapComprList(size_t nofElements, off_t from, size_t nofBytes,
 template <typename T>
 void Index::readFreqComprList(size_t nofElements, off_t from, size_t nofBytes,
                               vector<T>& result) const {
+  if (nofElements == 0) {
+    result.clear();
+    return;
+  }
   AD_CHECK_GT(nofBytes, 0);
   LOG(DEBUG) << "Reading frequency-encoded list from disk...\n";
   LOG(TRACE) << "NofElements: " << nofElements << ", from: " << from
-- 
2.43.0


From 60102b92356944122073b9a79cac7c5418b9fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 41/81] fix: do not read behind the entity blocks of the text
 index

Asking for an entity with a larger id than all entities in the text
dereferenced the end iterator.
---
 src/index/TextMetaData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index ca86272..a0575af 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -53,7 +53,7 @@ bool TextMetaData::existsTextBlockForEntityId(const Id eid) const {
   vector<Id>::const_iterator it = std::lower_bound(
       _blockUpperBoundEntityIds.begin(), _blockUpperBoundEntityIds.end(), eid);
 
-  return (*it == eid);
+  return it != _blockUpperBoundEntityIds.end() && *it == eid;
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 66cd6c656070f530fa724122787a5e62c3625d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 42/81] fix: handle entities that do not occur in the text

Searching for the entities that co-occur with an entity without text used the
block of the next larger entity, or memory behind the blocks.
---
 src/index/Index.Text.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index da2795b..22a79da 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -816,6 +816,10 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
     }
     idRange._last = idRange._first;
   }
+  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {
+    LOG(DEBUG) << "Entity " << term << " not contained in the text.\n";
+    return;
+  }
   const auto& tbmd =
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
@@ -1178,7 +1182,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
         if (!_vocab.getId(terms[i], &range._first)) {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return i;
-        } else {
+        }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text\n";
+          return i;
         }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
-- 
2.43.0


From da3e8b04f02da24159ac140c5d3a939f0fd4dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 43/81] fix: handle unknown prefixes in searches for several
 words

The range of word ids was used uninitialized when no word has the prefix.
---
 src/index/Index.Text.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 22a79da..5c2e3d4 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -1176,7 +1176,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
     bool entityTerm = (terms[i][0] == '<' && terms[i].back() == '>');
     IdRange range;
     if (terms[i].back() == PREFIX_CHAR) {
-      _textVocab.getIdRangeForFullTextPrefix(terms[i], &range);
+      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {
+        LOG(DEBUG) << "Prefix: " << terms[i] << " not in vocabulary\n";
+        return i;
+      }
     } else {
       if (entityTerm) {
         if (!_vocab.getId(terms[i], &range._first)) {
-- 
2.43.0


From 8d9fc6cb7e748a78a3fe2f56a9d3ff84eaa7f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 44/81] fix: use the scores of both words when intersecting
 their contexts

The scores of the second word were used for both lists, which is wrong and
reads out of bounds when the first list is longer.
---
 src/index/Index.Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 5c2e3d4..8bf6af2 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -548,7 +548,7 @@ void Index::getContextListForWords(const string& words,
     }
     if (cidVecs.size() == 2) {
       FTSAlgorithms::intersectTwoPostingLists(
-          cidVecs[0], scoreVecs[1], cidVecs[1], scoreVecs[1], cids, scores);
+          cidVecs[0], scoreVecs[0], cidVecs[1], scoreVecs[1], cids, scores);
     } else {
       vector<Id> dummy;
       FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, nullptr, cids, dummy,
-- 
2.43.0


From 3db0da47a6ba500107cfd0ea9580eea6aac6bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 45/81] fix: do not index postings that were never written

The vector of postings had one entry per line. When there are fewer postings,
for example because words are repeated within a context, the rest was indexed
as postings of the first word.
---
 src/index/Index.Text.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 8bf6af2..9d15ec1 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -14,10 +14,12 @@
 // _____________________________________________________________________________
 void Index::addTextFromContextFile(const string& contextFile) {
   string indexFilename = _onDiskBase + ".text.index";
-  size_t nofLines = passContextFileForVocabulary(contextFile);
+  passContextFileForVocabulary(contextFile);
   _textVocab.writeToFile(_onDiskBase + ".text.vocabulary");
   calculateBlockBoundaries();
-  TextVec v(nofLines);
+  // Starts empty: the number of postings is not the number of lines, and the
+  // writer only shrinks vectors that it has grown itself.
+  TextVec v;
   passContextFileIntoVector(contextFile, v);
   LOG(INFO) << "Sorting text index with " << v.size() << " items ..."
             << std::endl;
-- 
2.43.0


From bc814eb535c5452262b7fb0c998b7844531a7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:34 +0000
Subject: [PATCH 46/81] fix: tell the blocks of words and entities apart by
 their number

The first entity block was taken for a block of words when the id of the entity
directly follows the last word id.
---
 src/index/TextMetaData.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index a0575af..e001ac5 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -102,19 +102,16 @@ ad_utility::File& operator<<(ad_utility::File& f, const TextMetaData& md) {
 TextMetaData& TextMetaData::createFromByteBuffer(unsigned char* buffer) {
   size_t nofBlocks = *reinterpret_cast<size_t*>(buffer);
   off_t offset = sizeof(size_t);
-  bool stepEntity = false;
+  // The entities have a block each, behind those of the words.
+  size_t nofEntityBlocks = *reinterpret_cast<size_t*>(
+      buffer + offset + nofBlocks * TextBlockMetaData::sizeOnDisk());
+  AD_CHECK_LE(nofEntityBlocks, nofBlocks);
   for (size_t i = 0; i < nofBlocks; ++i) {
     TextBlockMetaData tbmd;
     tbmd.createFromByteBuffer(buffer + offset);
     offset += TextBlockMetaData::sizeOnDisk();
-    if (!stepEntity) {
-      if (_blocks.size() == 0 ||
-          _blocks.back()._lastWordId + 1 == tbmd._firstWordId) {
-        _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
-      } else {
-        stepEntity = true;
-        _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
-      }
+    if (i < nofBlocks - nofEntityBlocks) {
+      _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
     } else {
       _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
     }
-- 
2.43.0


From aef58b0c685b8b2feeb381abb4f2e10e6956d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:06:44 +0000
Subject: [PATCH 47/81] fix: estimate searches for entities that do not occur
 in the text

The estimate used the block of the next larger entity, or memory behind the
blocks.
---
 src/index/Index.Text.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 9d15ec1..58fa6d9 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -1401,6 +1401,10 @@ size_t Index::getSizeEstimate(const string& words) const {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return 0;
         }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text\n";
+          return 0;
+        }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
         return 0;
-- 
2.43.0


From f81f5af365a70bddb927c701038ef5b9e2fe5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:13 +0000
Subject: [PATCH 48/81] fix: return an empty excerpt for contexts without a
 document

Reading the excerpt of a context behind the last document did not end, and
without stored documents an unopened file was used.
---
 src/index/DocsDB.cpp | 9 +++++++--
 src/index/DocsDB.h   | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/index/DocsDB.cpp b/src/index/DocsDB.cpp
index a09c411..e4e71b8 100644
--- a/src/index/DocsDB.cpp
+++ b/src/index/DocsDB.cpp
@@ -19,15 +19,20 @@ void DocsDB::init(const string& fileName) {
 
 // _____________________________________________________________________________
 string DocsDB::getTextExcerpt(Id cid) const {
+  if (cid >= _size) {
+    // No document has this or a larger id.
+    return "";
+  }
   off_t ft[2];
   off_t& from = ft[0];
   off_t& to = ft[1];
   off_t at = _startOfOffsets + cid * sizeof(off_t);
   at += _dbFile.read(ft, sizeof(ft), at);
-  while (to == from) {
+  const off_t end = _startOfOffsets + (_size + 1) * sizeof(off_t);
+  while (to == from && at < end) {
     at += _dbFile.read(&to, sizeof(off_t), at);
   }
-  assert(to > from);
+  assert(to >= from);
   size_t nofBytes = static_cast<size_t>(to - from);
   string line(nofBytes, '\0');
   _dbFile.read(line.data(), nofBytes, from);
diff --git a/src/index/DocsDB.h b/src/index/DocsDB.h
index a83999b..0018c8e 100644
--- a/src/index/DocsDB.h
+++ b/src/index/DocsDB.h
@@ -19,6 +19,6 @@ class DocsDB {
   string getTextExcerpt(Id cid) const;
 
   mutable ad_utility::File _dbFile;
-  off_t _startOfOffsets;
-  size_t _size;
+  off_t _startOfOffsets = 0;
+  size_t _size = 0;
 };
-- 
2.43.0


From 66499dcd48be3ded40ed0c8d17527de36d5fd68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:13 +0000
Subject: [PATCH 49/81] fix: do not use the line buffer when nothing was read

For an empty file the length of the uninitialized buffer was determined.
---
 src/util/File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/File.h b/src/util/File.h
index 593529d..8787b9a 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -132,6 +132,10 @@ class File {
   bool readLine(string* line, char* buf, size_t bufferSize) {
     assert(_file);
     char* retVal = fgets(buf, bufferSize, _file);
+    if (!retVal) {
+      line->clear();
+      return false;
+    }
     size_t stringLength = strlen(buf);
     if (retVal && stringLength > 0 && buf[stringLength - 1] == '\n') {
       // Remove the trailing \n
-- 
2.43.0


From f135927d5fb4f1452fe3714f841dd5fe4db1afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:54 +0000
Subject: [PATCH 50/81] fix: give equal numbers equal index words

Leading zeros, zeros like 0.00 and numbers without a digit in front of the dot
were encoded as different and wrongly ordered numbers.
---
 src/util/Conversions.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b4c6bd4..bc0213c 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -213,8 +213,22 @@ string convertFloatStringToIndexWord(const string& orig,
     return convertFloatStringToIndexWord(value + ".0", type);
   }
 
+  // Equal numbers need equal index words: Have no leading zeros and at least one
+  // digit in front of the dot.
+  size_t startOfDigits = value[0] == '-' ? 1 : 0;
+  size_t nofZeros = 0;
+  while (startOfDigits + nofZeros + 1 < posOfDot &&
+         value[startOfDigits + nofZeros] == '0') {
+    ++nofZeros;
+  }
+  value.erase(startOfDigits, nofZeros);
+  if (value[startOfDigits] == '.') {
+    value.insert(startOfDigits, "0");
+  }
+  posOfDot = value.find('.');
+
   // Treat the special case 0.0
-  if (value == "0.0" || value == "-0.0") {
+  if (value.find_first_not_of("0.", startOfDigits) == string::npos) {
     return string(VALUE_FLOAT_PREFIX) + "N0" + char(type);
   }
 
-- 
2.43.0


From 719b579803d5be9d7a333a4af0176af23f96c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:09 +0000
Subject: [PATCH 51/81] fix: keep the year 0 when decoding dates

---
 src/util/Conversions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index bc0213c..2e3b0d1 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -161,7 +161,11 @@ string convertIndexWordToValueLiteral(const string& indexWord) {
   if (startsWith(indexWord, VALUE_DATE_PREFIX)) {
     std::ostringstream os;
     string date = removeLeadingZeros(convertIndexWordToDate(indexWord));
-    if (date.size() == 0 || startsWith(date, VALUE_DATE_TIME_SEPARATOR)) {
+    // The year 0 consists only of zeros. Negative years start with their sign,
+    // which no leading zeros can have been in front of.
+    bool negative = convertIndexWordToDate(indexWord)[0] == '-';
+    if (date.size() == 0 || startsWith(date, VALUE_DATE_TIME_SEPARATOR) ||
+        (date[0] == '-' && !negative)) {
       date = string("0") + date;
     }
     os << "\"" << date << "\"" << XSD_DATETIME_SUFFIX;
-- 
2.43.0


From 162fe2103cdaa908d444f0d6c846e8c82d58f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:10 +0000
Subject: [PATCH 52/81] fix: ignore the time zone of dates without a time

---
 src/util/Conversions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 2e3b0d1..bf4395b 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -11,6 +11,7 @@
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <string>
@@ -536,6 +537,8 @@ string normalizeDate(const string& orig) {
       year = value.substr(0, posOfFirstHyph);
       month = value.substr(posOfFirstHyph + 1,
                            posOfSecondHyph - (posOfFirstHyph + 1));
+      // A time zone can follow the two digits of the day.
+      end = std::min(end, posOfSecondHyph + 3);
       day = value.substr(posOfSecondHyph + 1, end - (posOfSecondHyph + 1));
     } else if (posOfFirstHyph != string::npos) {
       // Case has month
-- 
2.43.0


From 895fefcbda3eda0721c2cd569ad8a647026e3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:10 +0000
Subject: [PATCH 53/81] fix: compute floats of numbers with many digits

---
 src/util/Conversions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index bf4395b..d4fa76e 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -444,8 +444,11 @@ float convertIndexWordToFloat(const string& indexWord) {
   for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
        mStop--)
     ;
+  // More digits than these neither fit into a long nor change the float.
+  mStop = std::min(mStop, mStart + 17);
   long absMantissa = stol(mantissa.substr(mStart, mStop - mStart + 1));
-  unsigned int mantissaLog = std::log10(absMantissa);
+  // Rounding makes std::log10 too large for long mantissas like 99...9.
+  unsigned int mantissaLog = mStop - mStart;
   if (negaMantissa) {
     if (negaExponent) {
       return -absMantissa * std::pow(10, -absExponent - mantissaLog);
-- 
2.43.0


From d964e3af88cde0d67b5f2af9e78e0919ea11fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:11:35 +0000
Subject: [PATCH 54/81] fix: choose compression prefixes that fit on a line

---
 src/index/PrefixHeuristic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/PrefixHeuristic.cpp b/src/index/PrefixHeuristic.cpp
index ac7131d..0f85add 100644
--- a/src/index/PrefixHeuristic.cpp
+++ b/src/index/PrefixHeuristic.cpp
@@ -7,7 +7,6 @@
 #include <algorithm>
 #include <fstream>
 
-#include "../parser/RdfEscaping.h"
 #include "../parser/Tokenizer.h"
 #include "../util/Exception.h"
 #include "../util/Log.h"
@@ -185,7 +184,8 @@ std::vector<string> calculatePrefixes(const string& filename,
   LOG(INFO) << "start reading words and building prefix tree..." << std::endl;
   // insert all prefix candidates into  the tree
   while (std::getline(ifs, nextWord)) {
-    nextWord = RdfEscaping::unescapeNewlinesAndBackslashes(nextWord);
+    // The words stay escaped: The prefixes are compared to the lines of the
+    // vocabulary file and stored one per line themselves.
     totalChars += nextWord.size();
     // the longest common prefixes between two adjacent words are our candidates
     // for compression
-- 
2.43.0


From 782bb6a489610ddcd91261b0bcf850e98fb40c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:50 +0000
Subject: [PATCH 55/81] fix: look up words smaller than all externalized words

---
 src/index/ExternalVocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
-- 
2.43.0


From 262dbe5bb795124a4babd8ab794b5558b4a2e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:50 +0000
Subject: [PATCH 56/81] fix: compute the range of prefixes without any letter

---
 src/index/StringSortComparator.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index cc4716d..7da5522 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -414,6 +414,11 @@ class SimpleStringComparator {
       std::string_view s, const Level level) const {
     AD_CHECK(level == Level::PRIMARY)
     auto transformed = _locManager.getSortKey(s, Level::PRIMARY);
+    if (transformed.get().empty()) {
+      // Every string starts with the empty string, no weight starts like this.
+      transformed.get().push_back('\xff');
+      return transformed;
+    }
     unsigned char last = transformed.get().back();
     if (last < std::numeric_limits<unsigned char>::max()) {
       transformed.get().back() += 1;
@@ -603,6 +608,11 @@ class TripleComponentComparator {
       std::string_view s, const Level level) const {
     AD_CHECK(level == Level::PRIMARY)
     auto transformed = extractAndTransformComparable(s, Level::PRIMARY);
+    if (transformed.transformedVal.get().empty()) {
+      // Every value of this datatype starts with the empty string.
+      ++transformed.firstOriginalChar;
+      return transformed;
+    }
     unsigned char last = transformed.transformedVal.get().back();
     if (last < std::numeric_limits<unsigned char>::max()) {
       transformed.transformedVal.get().back() += 1;
-- 
2.43.0


From 2719038b2b658e6cfe3c721c246eca257b3e1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:52:56 +0000
Subject: [PATCH 57/81] fix: merge externalized words that occur in several
 partial vocabularies

---
 src/index/VocabularyGeneratorImpl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..805d496 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -156,8 +156,10 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
       if (_lastWritten < EXTERNALIZED_LITERALS_PREFIX) {
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
-        // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // we have to strip the externalization character again, but
+        // _lastWritten keeps it, duplicates still have to be recognized
+        std::string externalWord = _lastWritten;
+        auto& c = externalWord[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -171,7 +173,7 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(externalWord) << '\n';
       }
 
       // write id to corresponding vec
-- 
2.43.0


From 7d269145a21da3b6cb4136df8e86b7c8b7cf93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:07 +0000
Subject: [PATCH 58/81] fix: read all statements of a memory mapped Turtle file

---
 src/parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3ef3596..3c80882 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -515,7 +515,7 @@ bool TurtleMmapParser<T>::getLine(std::array<string, 3>* triple) {
     // relatively expensive backup calls.
     while (_triples.size() < PARSER_MIN_TRIPLES_AT_ONCE &&
            !_isParserExhausted) {
-      if (this->statement()) {
+      if (!this->statement()) {
         // we cannot parse anymore from an mmaped file but there was no
         // error. check if we are just at the end of the input, otherwise
         // inform.
-- 
2.43.0


From acb272c0040b6c2e33b0d83b8295a217c6d9714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:43 +0000
Subject: [PATCH 59/81] fix: strip the angle brackets of PREFIX declarations in
 Turtle input

---
 src/parser/TurtleParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3c80882..30c4d54 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -59,7 +59,9 @@ template <class T>
 bool TurtleParser<T>::sparqlPrefix() {
   if (skip<TokId::SparqlPrefix>()) {
     if (pnameNS() && iriref()) {
-      _prefixMap[_activePrefix] = _lastParseResult;
+      // strip  the angled brackes <bla> -> bla
+      _prefixMap[_activePrefix] =
+          _lastParseResult.substr(1, _lastParseResult.size() - 2);
       return true;
     } else {
       raise("sparqlPrefix");
-- 
2.43.0


From 9668a3deef1922de226acb6cec20729a4ad1598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:43 +0000
Subject: [PATCH 60/81] fix: consume the dot at the end of a @base declaration

---
 src/parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 30c4d54..0b421dd 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -43,7 +43,7 @@ bool TurtleParser<T>::prefixID() {
 template <class T>
 bool TurtleParser<T>::base() {
   if (skip<TokId::TurtleBase>()) {
-    if (iriref()) {
+    if (iriref() && check(skip<TokId::Dot>())) {
       _baseIRI = _lastParseResult;
       return true;
     } else {
-- 
2.43.0


From 1c09161925628633c59318188f1a7d3d0b0e577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:43 +0000
Subject: [PATCH 61/81] fix: parse decimals and doubles in Turtle input

---
 src/parser/Tokenizer.h      | 7 ++++---
 src/parser/TurtleParser.cpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 2ad09bb..84d05f6 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -130,8 +130,8 @@ struct TurtleTokenCtre {
   static constexpr auto Exponent = grp(ExponentString);
 
   static constexpr auto DoubleString =
-      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString + "|" +
-      ExponentString + ")";
+      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString +
+      "|\\.?[0-9]+" + ExponentString + "|" + ExponentString + ")";
 
   static constexpr auto Double = grp(DoubleString);
 
@@ -318,7 +318,8 @@ struct TurtleToken {
   const string ExponentString = "[eE][+-]?[0-9]+";
   const RE2 Exponent;
   const string DoubleString =
-      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|" + ExponentString + ")";
+      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|\\.?[0-9]+" +
+      ExponentString + "|" + ExponentString + ")";
   const RE2 Double;
 
   const string HexString = "0-9A-Fa-f";
diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 0b421dd..740f9ee 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -233,7 +233,8 @@ bool TurtleParser<T>::collection() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::numericLiteral() {
-  return integer() || decimal() || doubleParse();
+  // each of these matches a prefix of the ones before it
+  return doubleParse() || decimal() || integer();
 }
 
 // ______________________________________________________________________
-- 
2.43.0


From 941252f1ae20eba351b3b35e252e3bbf41154983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:00 +0000
Subject: [PATCH 62/81] fix: skip any number of consecutive comments in Turtle
 input

---
 src/parser/Tokenizer.cpp |  6 +++---
 src/parser/Tokenizer.h   | 20 +++++++++++---------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/Tokenizer.cpp b/src/parser/Tokenizer.cpp
index 44950ac..0010ac9 100644
--- a/src/parser/Tokenizer.cpp
+++ b/src/parser/Tokenizer.cpp
@@ -6,9 +6,9 @@
 
 // ______________________________________________________
 void Tokenizer::skipWhitespaceAndComments() {
-  skipWhitespace();
-  skipComments();
-  skipWhitespace();
+  do {
+    skipWhitespace();
+  } while (skipComments());
 }
 
 // _______________________________________________________
diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 84d05f6..27656cf 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -485,9 +485,9 @@ class TokenizerCtre {
 
   /// skip any whitespace or comments at the beginning of the held characters
   void skipWhitespaceAndComments() {
-    skipWhitespace();
-    skipComments();
-    skipWhitespace();
+    do {
+      skipWhitespace();
+    } while (skipComments());
   }
 
   /** If there is a prefix match with the argument, move forward the beginning
@@ -526,9 +526,8 @@ class TokenizerCtre {
   }
 
   // ___________________________________________________________________________________
-  void skipComments() {
-    // if not successful, then there was no comment, but this does not matter to
-    // us
+  // skip a single comment, return false if there was none
+  bool skipComments() {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
@@ -537,8 +536,10 @@ class TokenizerCtre {
         LOG(INFO) << "Warning, unfinished comment found while parsing";
       } else {
         _data.remove_prefix(pos + 1);
+        return true;
       }
     }
+    return false;
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
 
@@ -775,9 +776,8 @@ class Tokenizer {
   }
 
   // ___________________________________________________________________________________
-  void skipComments() {
-    // if not successful, then there was no comment, but this does not matter to
-    // us
+  // skip a single comment, return false if there was none
+  bool skipComments() {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
@@ -786,8 +786,10 @@ class Tokenizer {
         LOG(INFO) << "Warning, unfinished comment found while parsing";
       } else {
         _data.remove_prefix(pos + 1);
+        return true;
       }
     }
+    return false;
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
   re2::StringPiece _data;
-- 
2.43.0


From 195735d2b5d4846b577fecfa3bc32c81419b3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:00 +0000
Subject: [PATCH 63/81] fix: blank node property lists as subjects of Turtle
 triples

---
 src/parser/TurtleParser.cpp | 10 ++++++----
 src/parser/TurtleParser.h   |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 740f9ee..e303c51 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -96,7 +96,7 @@ bool TurtleParser<T>::triples() {
       raise("triples");
     }
   } else {
-    if (blankNodePropertyList()) {
+    if (blankNodePropertyList(true)) {
       predicateObjectList();
       return true;
     } else {
@@ -199,7 +199,7 @@ bool TurtleParser<T>::literal() {
 
 // _____________________________________________________________________
 template <class T>
-bool TurtleParser<T>::blankNodePropertyList() {
+bool TurtleParser<T>::blankNodePropertyList(bool asSubject) {
   if (!skip<TokId::OpenSquared>()) {
     return false;
   }
@@ -209,13 +209,15 @@ bool TurtleParser<T>::blankNodePropertyList() {
   // new triple with blank node as object
   string blank = createAnonNode();
   _lastParseResult = blank;
-  emitTriple();
+  if (!asSubject) {
+    emitTriple();
+  }
   // the following triples have the blank node as subject
   _activeSubject = blank;
   check(predicateObjectList());
   check(skip<TokId::CloseSquared>());
   // restore subject and predicate
-  _activeSubject = savedSubject;
+  _activeSubject = asSubject ? blank : savedSubject;
   _activePredicate = savedPredicate;
   return true;
 }
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 2cfc032..eed999a 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -150,7 +150,9 @@ class TurtleParser {
   bool triples();
   bool subject();
   bool predicateObjectList();
-  bool blankNodePropertyList();
+  // if asSubject is set, the blank node becomes the active subject, else it is
+  // the object of a triple
+  bool blankNodePropertyList(bool asSubject = false);
   bool objectList();
   bool object();
   bool verb();
-- 
2.43.0


From 9775ca1c153cef235446a01f3917624757606a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:00 +0000
Subject: [PATCH 64/81] fix: do not take prefixes that start with an a for the
 keyword in Turtle input

---
 src/parser/TurtleParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index e303c51..afc6af6 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -144,6 +144,13 @@ bool TurtleParser<T>::verb() {
 template <class T>
 bool TurtleParser<T>::predicateSpecialA() {
   _tok.skipWhitespaceAndComments();
+  // the prefix of a prefixed name can also start with an "a"
+  auto data = _tok.data();
+  bool isPrefix = _tok.template skip<TokId::PnameNS>();
+  _tok.reset(data.data(), data.size());
+  if (isPrefix) {
+    return false;
+  }
   if (auto [success, word] = _tok.template getNextToken<TokId::A>(); success) {
     (void)word;
     _activePredicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"s;
-- 
2.43.0


From 14d2d4780b099a491895220c1c462752f204c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:08 +0000
Subject: [PATCH 65/81] fix: accept the empty prefix in Turtle input

---
 src/parser/Tokenizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 27656cf..41e19b7 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -197,7 +197,7 @@ struct TurtleTokenCtre {
                                          cls(PnCharsString) + "|" +
                                          cls(PnCharsString) + ")*";
 
-  static constexpr auto PnameNSString = PnPrefixString + ":";
+  static constexpr auto PnameNSString = grp(PnPrefixString) + "?:";
 
   static constexpr fixed_string PnLocalEscString =
       "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
@@ -379,7 +379,7 @@ struct TurtleToken {
                                 cls(PnCharsString) + "|" + cls(PnCharsString) +
                                 ")*";
 
-  const string PnameNSString = PnPrefixString + ":";
+  const string PnameNSString = grp(PnPrefixString) + "?:";
   const RE2 PnameNS;
 
   const string PnLocalEscString = "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
-- 
2.43.0


From b24aa641fe175d2aab0c295ce0b36d58bf24b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:08 +0000
Subject: [PATCH 66/81] fix: make the triples of a Turtle stream independent of
 the size of its buffer

---
 src/parser/TurtleParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index afc6af6..b1e4291 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -599,6 +599,19 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
         ex = p;
       }
 
+      // The end of the statement might depend on bytes that have not been read
+      // yet, for example when the buffer ends in the middle of "12.5". No such
+      // token contains white space.
+      if (parsedStatement &&
+          _tok.view().find_first_of("\x20\x09\x0D\x0A") == string::npos &&
+          resetStateAndRead(&b)) {
+        continue;
+      }
+      if (parsedStatement) {
+        // never parse a statement again after a later prefix declaration
+        b = backupState();
+      }
+
       if (!parsedStatement) {
         // we read chunks of memories in a buffered way
         // try to parse with a larger buffer and repeat the reading process
-- 
2.43.0


From f497200c66cfaa7fa9a8930036e98ce0b0331ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 67/81] fix: name all token types of the SPARQL lexer

The table of type names had no entries for GROUP BY and ORDER BY, so error
messages named the wrong type or read past the end of the table.
---
 src/parser/SparqlLexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c67c245..c71b61c 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -8,8 +8,8 @@
 #include "Tokenizer.h"
 
 const std::string SparqlToken::TYPE_NAMES[] = {
-    "IRI",       "WS",         "KEYWORD", "VARIABLE", "SYMBOL",
-    "AGGREGATE", "RDFLITERAL", "INTEGER", "FLOAT",    "LOGICAL_OR"};
+    "IRI",    "WS",        "KEYWORD",    "GROUP_BY", "ORDER_BY", "VARIABLE",
+    "SYMBOL", "AGGREGATE", "RDFLITERAL", "INTEGER",  "FLOAT",    "LOGICAL_OR"};
 
 const std::string SparqlLexer::LANGTAG = "@[a-zA-Z]+(-[a-zA-Z0-9]+)*";
 const std::string SparqlLexer::IRIREF =
-- 
2.43.0


From 6e7b62dc4a9ba3a7ea74c7dba3335e627f5c5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 68/81] fix: initialize the position of SPARQL tokens

The error message for an empty query used an undefined position.
---
 src/parser/SparqlLexer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/SparqlLexer.h b/src/parser/SparqlLexer.h
index 869e12a..3ec5546 100644
--- a/src/parser/SparqlLexer.h
+++ b/src/parser/SparqlLexer.h
@@ -25,7 +25,7 @@ struct SparqlToken {
 
   std::string raw;
   Type type = Type::IRI;
-  size_t pos;
+  size_t pos = 0;
 
   friend std::ostream& operator<<(std::ostream& os, const SparqlToken& t) {
     os << t.raw << " : " << TYPE_NAMES[(int)t.type];
-- 
2.43.0


From 450b1681429b11a927f3138cb0e1e32a626a7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 69/81] fix: reject a superfluous token at the end of a query

The lexer reads one token ahead and was considered empty while that token had
not been looked at. A superfluous closing brace was also accepted.
---
 src/parser/SparqlLexer.cpp  |  9 ++++++---
 src/parser/SparqlParser.cpp | 11 ++++++-----
 src/parser/SparqlParser.h   |  5 +++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c71b61c..6bca134 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -88,14 +88,17 @@ SparqlLexer::SparqlLexer(const std::string& sparql)
   readNext();
 }
 
-bool SparqlLexer::empty() const { return _re_string.empty(); }
+bool SparqlLexer::empty() const {
+  // The next token was already read, but not consumed.
+  return _re_string.empty() && _next.type == SparqlToken::Type::WS;
+}
 
 void SparqlLexer::readNext() {
   _current = _next;
   _next.type = SparqlToken::Type::WS;
   std::string raw;
   // Return the first token type matched.
-  while (_next.type == SparqlToken::Type::WS && !empty()) {
+  while (_next.type == SparqlToken::Type::WS && !_re_string.empty()) {
     _next.pos = _sparql.size() - _re_string.size();
     if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
       _next.type = SparqlToken::Type::KEYWORD;
@@ -211,7 +214,7 @@ void SparqlLexer::expectEmpty() {
   if (!empty()) {
     std::ostringstream s;
     s << "Expected the end of the input but found "
-      << _re_string.substr(0, 256);
+      << _next.raw << _re_string.substr(0, 256);
     throw ParseException(s.str());
   }
 }
diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index cdb303f..3d15477 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -34,13 +34,13 @@ ParsedQuery SparqlParser::parse() {
 }
 
 // _____________________________________________________________________________
-void SparqlParser::parseQuery(ParsedQuery* query) {
+void SparqlParser::parseQuery(ParsedQuery* query, bool isSubquery) {
   parseSelect(query);
 
   _lexer.expect("{");
   parseWhere(query);
 
-  parseSolutionModifiers(query);
+  parseSolutionModifiers(query, isSubquery);
 
   if (query->_groupByVariables.size() > 0) {
     // Check if all selected variables are either aggregated or
@@ -352,7 +352,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         // subquery
         // create the subquery operation
         GraphPatternOperation::Subquery subq;
-        parseQuery(&subq._subquery);
+        parseQuery(&subq._subquery, true);
         currentPattern->_children.emplace_back(std::move(subq));
         // The closing bracked } is consumed by the subquery
         _lexer.accept(".");
@@ -631,8 +631,9 @@ void SparqlParser::addWhereTriple(
  */
 
 // _____________________________________________________________________________
-void SparqlParser::parseSolutionModifiers(ParsedQuery* query) {
-  while (!_lexer.empty() && !_lexer.accept("}")) {
+void SparqlParser::parseSolutionModifiers(ParsedQuery* query,
+                                          bool isSubquery) {
+  while (!_lexer.empty() && !(isSubquery && _lexer.accept("}"))) {
     if (_lexer.accept(SparqlToken::Type::ORDER_BY)) {
       bool reached_end = false;
       while (!reached_end) {
diff --git a/src/parser/SparqlParser.h b/src/parser/SparqlParser.h
index 474b836..a221442 100644
--- a/src/parser/SparqlParser.h
+++ b/src/parser/SparqlParser.h
@@ -26,12 +26,13 @@ class SparqlParser {
                              size_t off = 0);
 
  private:
-  void parseQuery(ParsedQuery* query);
+  // A subquery ends with a closing brace.
+  void parseQuery(ParsedQuery* query, bool isSubquery = false);
   void parsePrologue(ParsedQuery* query);
   void parseSelect(ParsedQuery* query);
   void parseWhere(ParsedQuery* query,
                   ParsedQuery::GraphPattern* currentPattern = nullptr);
-  void parseSolutionModifiers(ParsedQuery* query);
+  void parseSolutionModifiers(ParsedQuery* query, bool isSubquery);
   void addPrefix(const string& key, const string& value, ParsedQuery* query);
   void addWhereTriple(const string& str,
                       std::shared_ptr<ParsedQuery::GraphPattern> pattern);
-- 
2.43.0


From 33b454b8353e744ff569c8b186b0150716c21766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 70/81] fix: accept literals in single quotes in SPARQL queries

---
 src/parser/SparqlLexer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 6bca134..503481e 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -123,7 +123,12 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::IRI;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
-      auto lastQuote = raw.rfind('"');
+      // The literal ends with the first unescaped quote of the kind it starts
+      // with.
+      size_t lastQuote = 1;
+      while (raw[lastQuote] != raw[0]) {
+        lastQuote += raw[lastQuote] == '\\' ? 2 : 1;
+      }
       std::string_view quoted{raw.begin(), raw.begin() + lastQuote + 1};
       std::string_view langtagOrDatatype{raw.begin() + lastQuote + 1,
                                          raw.end()};
-- 
2.43.0


From f09aa883fc178d1e8743903a74f264444137f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 71/81] fix: keep literals of a query as the lexer normalized
 them

The lexer already removes all escapes of a literal. Parsing the result again
rejected or altered literals with quotes, backslashes and language tags such
as en-US.
---
 src/parser/SparqlParser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 3d15477..a829b95 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -299,9 +299,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
           inVar2 = _lexer.current().raw;
         }
       } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-        // The "true" says that the whole string is a literal (with "false",
-        // there could be more stuff after the literal).
-        inVar = parseLiteral(_lexer.current().raw, true);
+        inVar = _lexer.current().raw;
         isString = true;
       } else if (_lexer.accept(SparqlToken::Type::INTEGER)) {
         isString = false;
@@ -424,7 +422,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
           subject = _lexer.current().raw;
         } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-          subject = parseLiteral(_lexer.current().raw, true);
+          subject = _lexer.current().raw;
         } else {
           _lexer.expect(SparqlToken::Type::IRI);
           subject = _lexer.current().raw;
@@ -439,7 +437,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
           predicate = _lexer.current().raw;
         } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-          predicate = parseLiteral(_lexer.current().raw, true);
+          predicate = _lexer.current().raw;
         } else {
           // Assume the token is a predicate path. This will be verified
           // separately later.
@@ -456,7 +454,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
         object = _lexer.current().raw;
       } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-        object = parseLiteral(_lexer.current().raw, true);
+        object = _lexer.current().raw;
       } else {
         _lexer.expect(SparqlToken::Type::IRI);
         object = _lexer.current().raw;
-- 
2.43.0


From 8ef18021ce125213bfaea3ed5799654b28c4b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 72/81] fix: use the given prefix for the upper bound of a
 prefix filter

---
 src/parser/SparqlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index a829b95..d71e8da 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -756,7 +756,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
     f1._rhs = _lexer.current().raw;
-    f2._rhs = f1._lhs;
+    f2._rhs = f1._rhs;
     f1._rhs = f1._rhs.substr(0, f1._rhs.size() - 1) + " ";
     f2._rhs = f2._rhs.substr(0, f2._rhs.size() - 2);
     f2._rhs += f1._rhs[f1._rhs.size() - 2] + 1;
-- 
2.43.0


From 1d499b4546c6c181820b6212a09ca8f8a82c1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 73/81] fix: accept the closing parenthesis of langMatches

---
 src/parser/SparqlParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index d71e8da..904b034 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -717,6 +717,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
     std::string rhs = _lexer.current().raw;
+    _lexer.expect(")");
     expectClose();
     addLangFilter(lhs, rhs, pattern);
     return true;
-- 
2.43.0


From b9ad5fb25ea2685dc3abe3fe75bb553727c8efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 74/81] fix: treat braces as special characters of regular
 expressions

A regular expression like "^a{2}" was turned into a prefix filter.
---
 src/parser/SparqlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 904b034..4b0fcee 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -1011,7 +1011,7 @@ SparqlFilter SparqlParser::parseRegexFilter(bool expectKeyword) {
 
     // Check if the regex is only a prefix regex or also does
     // anything else.
-    const static string regexControlChars = "[]^$.|?*+()";
+    const static string regexControlChars = "[]{}^$.|?*+()";
     for (size_t i = 1; isSimple && i < f._rhs.size(); i++) {
       if (f._rhs[i] == '\\') {
         if (!escaped) {
-- 
2.43.0


From 138c496d6f570b434721ea772564bca22c424cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 75/81] fix: accept prefixed names that start with a keyword in
 queries

---
 src/parser/SparqlLexer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 503481e..f92c686 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -100,7 +100,10 @@ void SparqlLexer::readNext() {
   // Return the first token type matched.
   while (_next.type == SparqlToken::Type::WS && !_re_string.empty()) {
     _next.pos = _sparql.size() - _re_string.size();
-    if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
+    // Prefixed names may start with a keyword, e.g. as:x or text:y.
+    if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
+      _next.type = SparqlToken::Type::IRI;
+    } else if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
       _next.type = SparqlToken::Type::KEYWORD;
       raw = ad_utility::getLowercaseUtf8(raw);
     } else if (re2::RE2::Consume(&_re_string, RE_GROUP_BY, &raw)) {
@@ -119,8 +122,6 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::LOGICAL_OR;
     } else if (re2::RE2::Consume(&_re_string, RE_VARIABLE, &raw)) {
       _next.type = SparqlToken::Type::VARIABLE;
-    } else if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
-      _next.type = SparqlToken::Type::IRI;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
       // The literal ends with the first unescaped quote of the kind it starts
-- 
2.43.0


From 0bc9f6209bf61310f0c89a95a2707c5665957e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 76/81] fix: recognize path lengths after other delimiters

In a property path like (<a>)*3 the number was not read as part of the star.
---
 src/parser/PropertyPathParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 5f43ab0..eb4dc29 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -81,7 +81,7 @@ std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
         }
         while (pos < str.size() && DELIMITER_CHARS[(uint8_t)str[pos]]) {
           pos++;
-          if (c == '*' && pos < str.size() && std::isdigit(str[pos])) {
+          if (str[start] == '*' && pos < str.size() && std::isdigit(str[pos])) {
             // The * token has a number following it
             pos++;
             while (pos < str.size() && std::isdigit(str[pos])) {
-- 
2.43.0


From d718ade91aa0e96379083bdc37c477f5b2884c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:11 +0000
Subject: [PATCH 77/81] fix: reject property paths with an operator in place of
 an iri

---
 src/parser/PropertyPathParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index eb4dc29..0f22808 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -229,6 +229,11 @@ PropertyPath PropertyPathParser::pathPrimary() {
     PropertyPath p(PropertyPath::Operation::IRI);
     std::string_view iri_view;
     expectAny(&iri_view);
+    if (DELIMITER_CHARS[(uint8_t)iri_view[0]] &&
+        (iri_view[0] != '?' || iri_view.size() == 1)) {
+      throw ParseException("Expected an iri but got " + std::string(iri_view) +
+                           " while parsing " + std::string(_string));
+    }
     p._iri = iri_view;
     return p;
   }
-- 
2.43.0


From 27b1e1b30ae085d7a787799828e0b1a76f5ccf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:37 +0000
Subject: [PATCH 78/81] fix: expand prefixes in the filters of nested patterns
 and in HAVING

Only the filters of the outermost graph pattern were considered.
---
 src/parser/ParsedQuery.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index dc2a201..b407990 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -253,13 +253,16 @@ void ParsedQuery::expandPrefixes() {
     prefixMap[p._prefix] = p._uri;
   }
 
-  for (auto& f : _rootGraphPattern._filters) {
-    expandPrefix(f._lhs, prefixMap);
-    // TODO<joka921>: proper type system for variable/regex/iri/etc
-    if (f._type != SparqlFilter::REGEX) {
-      expandPrefix(f._rhs, prefixMap);
+  auto expandFilters = [&prefixMap](vector<SparqlFilter>* filters) {
+    for (auto& f : *filters) {
+      expandPrefix(f._lhs, prefixMap);
+      // TODO<joka921>: proper type system for variable/regex/iri/etc
+      if (f._type != SparqlFilter::REGEX) {
+        expandPrefix(f._rhs, prefixMap);
+      }
     }
-  }
+  };
+  expandFilters(&_havingClauses);
 
   vector<GraphPattern*> graphPatterns;
   graphPatterns.push_back(&_rootGraphPattern);
@@ -268,6 +271,7 @@ void ParsedQuery::expandPrefixes() {
   while (!graphPatterns.empty()) {
     GraphPattern* pattern = graphPatterns.back();
     graphPatterns.pop_back();
+    expandFilters(&pattern->_filters);
     for (GraphPatternOperation& p : pattern->_children) {
       p.visit([&graphPatterns, &prefixMap = std::as_const(prefixMap),
                this](auto&& arg) {
-- 
2.43.0


From 629a84c4d3f56976fcf8fe97a7313ab3c3d91f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:44:37 +0000
Subject: [PATCH 79/81] fix: expand the datatype of literals that contain
 colons or backslashes

The first colon of the whole literal was taken for that of the datatype, and
backslashes of the content were treated as escapes of the datatype.
---
 src/parser/ParsedQuery.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index b407990..619ceeb 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -370,20 +370,24 @@ void ParsedQuery::expandPrefix(
       item = item.substr(secondPos + 1);
     }
 
-    size_t i = item.find(':');
-    size_t from = item.find("^^");
-    if (from == string::npos) {
-      from = 0;
-    } else {
+    size_t from = 0;
+    if (ad_utility::startsWith(item, "\"")) {
+      // Only the datatype of a literal is expanded. It contains no quotes.
+      from = item.rfind('"') + 1;
+      if (item.compare(from, 2, "^^") != 0) {
+        return;
+      }
       from += 2;
     }
-    if (i != string::npos && i >= from &&
+    size_t i = item.find(':', from);
+    if (i != string::npos &&
         prefixMap.contains(item.substr(from, i - from))) {
       string prefixUri = prefixMap.at(item.substr(from, i - from));
       // Note that substr(0, 0) yields the empty string.
-      item = item.substr(0, from) + prefixUri.substr(0, prefixUri.size() - 1) +
-             item.substr(i + 1) + '>';
-      item = RdfEscaping::unescapePrefixedIri(item);
+      item = item.substr(0, from) +
+             RdfEscaping::unescapePrefixedIri(
+                 prefixUri.substr(0, prefixUri.size() - 1) +
+                 item.substr(i + 1) + '>');
     }
     if (langtag) {
       item =
-- 
2.43.0


From 3d31da2bdc5cb567b396fe5ea4deaea14b524ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:01:15 +0000
Subject: [PATCH 80/81] fix: apply every HAVING condition instead of only the
 last one

Each condition was added on top of the plan without any conditions, so
all but the last one were dropped.
---
 src/engine/QueryPlanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 41a9bff..7e89a2b 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -980,7 +980,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getHavingRow(
       auto& tree = *plan._qet;
       tree.setVariableColumns(parent._qet->getVariableColumns());
       tree.setOperation(QueryExecutionTree::FILTER,
-                        createFilterOperation(filter, parent));
+                        createFilterOperation(filter, filtered));
       tree.setContextVars(parent._qet->getContextVars());
       filtered = plan;
     }
-- 
2.43.0


From a3655476e1c0856318e480f3434125801be2dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:44 +0000
Subject: [PATCH 81/81] fix: estimate the right side of optional and multi
 column joins from its own columns

The column of the right side was looked up in the left side, which reads
past the end if the left side has fewer columns.
---
 src/engine/MultiColumnJoin.cpp | 3 ++-
 src/engine/OptionalJoin.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index f794d9c..421c555 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -214,7 +214,8 @@ void MultiColumnJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index 2a902c0..df86e95 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -227,7 +227,8 @@ void OptionalJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0

