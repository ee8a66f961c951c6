From 1521893af9f22bbea47b4a31fa8b41d5d8ff04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 1/5] fix: centerline of a lanelet whose left bound is a single
 point shared with the right bound

The special case for bounds that touch at their beginning advanced the left iterator
past the end of a one-point left bound, which was dereferenced afterwards.
---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..e28b888 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -194,7 +194,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && leftBound.size() > 1) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From f31f2c8678cb1e5435c72adec66cb054d7c058bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 2/5] fix: moving points into an inverted linestring view
 stores them in the order of the view

utils::invert returns a reversed copy, which was dropped.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..d0bb866 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      rhs = utils::invert(rhs);
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From f46713ef0cba48671b888273d67f66581904261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 3/5] fix: area to area transitions need both areas to be
 passable

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From 5f3dcdadfcebf73ad8a0845274341643863dafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 4/5] fix: keep the lanelet in the remaining path of routes
 with a single lanelet

Route::remainingShortestPath took a route whose start is its destination for a
circular one and dropped its only lanelet.
---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..1498668 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -142,7 +142,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From 2fc1dcb5829bbfc90c2f25e8be74cd7c384cc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 5/5] fix: exclude conflicting relations from the view without
 conflicts

Graph::withoutConflicting combined the relations with '|' and so let conflicting
edges pass; RoutingGraph::routingRelation(from, to) reported them although
includeConflicting is false.
---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0

