From d521b099bd06f22df157997ff105eec8c2cc5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 01/32] fix: compute C-space boundaries with the robot posed at
 each C-slice

The free-space computator keeps its own copy of the robot, which was never
updated after construction, so that every C-slice used the C-obstacles of the
robot's initial pose.
---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  4 ++++
 src/planners/HRM2D.cpp         |  5 +++++
 src/planners/HRM2DKC.cpp       | 14 +++++++++-----
 src/planners/HRM3D.cpp         |  1 +
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..4b16bc7 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -35,6 +35,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
   protected:
     void constructOneSlice(const Index sliceIdx) override;
 
+    /** \brief Pass the robot at its current pose to the free space computator
+     */
+    virtual void updateFreeSpaceRobot();
+
     virtual void sampleOrientations() override;
 
     virtual void generateVertices(const Coordinate tx,
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..8167150 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -25,6 +25,10 @@ class HRM2DKC : public HRM2D {
     ~HRM2DKC();
 
   private:
+    /** \brief Pass the inflated robot at its current pose to the free space
+     * computator */
+    void updateFreeSpaceRobot() override;
+
     void connectMultiSlice() override;
 
     /** \brief Add a middle vertex between two vertices for edge connection
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..7a4df59 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -20,6 +20,7 @@ hrm::planners::HRM2D::~HRM2D() = default;
 void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     // Set rotation matrix to robot
     setTransform({0.0, 0.0, headings_.at(sliceIdx)});
+    updateFreeSpaceRobot();
 
     // Generate new C-slice
     if (!isRefine_) {
@@ -41,6 +42,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     connectOneSlice2D(freeSegOneSlice_);
 }
 
+void hrm::planners::HRM2D::updateFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..ca6a028 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,6 +7,15 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    // Update robot in the free space computator
+    HRM2DKC::updateFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::updateFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
@@ -14,14 +23,9 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
          baseInflated.getSemiAxis().at(1) * (1 + inflationFactor_)});
     MultiBodyTree2D robot_infla(baseInflated);
 
-    // Update robot in the free space computator
     freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..0162eb8 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -29,6 +29,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         setTransform(v_.at(sliceIdx));
     }
+    freeSpacePtr_->setRobot(robot_);
 
     // Add new C-slice
     if (!isRefine_) {
-- 
2.43.0


From 8625a733ee2f88d1f130ee3bd760afd50645ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 02/32] fix: let roadmap refinement sweep more lines over the
 slice's own C-obstacles

Refinement doubled the number of sweep lines without resizing the interval
storage (std::out_of_range), and intersected the lines with the boundary left
over from the last C-slice.
---
 include/hrm/datastructure/FreeSpace.h | 6 ++++++
 include/hrm/planners/HRM2D.h          | 1 +
 include/hrm/planners/HRM3D.h          | 1 +
 src/planners/HRM2D.cpp                | 3 +++
 src/planners/HRM3D.cpp                | 4 ++++
 5 files changed, 15 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..cf6bda5 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -69,6 +69,12 @@ class FreeSpaceComputator {
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
 
+    /** \brief Set C-space obstacles boundary
+     * \param bound Boundary to be intersected with the sweep lines */
+    void setCSpaceBoundary(const BoundaryInfo& bound) {
+        cSpaceBoundary_ = bound;
+    }
+
     /** \brief Get intervals for line-obstacle/arena intersections
      * \return IntersectionInterval */
     const IntersectionInterval& getIntersectionInterval() const {
diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 4b16bc7..b6143f5 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -28,6 +28,7 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
      * \return Collision-free line segment as FreeSegment2D type */
     const FreeSegment2D& getFreeSegmentOneSlice(const BoundaryInfo& bd) {
         sliceBound_ = bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         sweepLineProcess();
         return freeSegOneSlice_;
     }
diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..641417c 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -35,6 +35,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
      * \return Collision-free line segment as FreeSegment3D type */
     const FreeSegment3D& getFreeSegmentOneSlice(const BoundaryInfo* bd) {
         sliceBound_ = *bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
         sliceBoundMesh_ = freeSpacePtr_->getCSpaceBoundaryMesh();
         sweepLineProcess();
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 7a4df59..200a52f 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -30,6 +30,9 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                             param_.boundaryLimits[1]);
     }
 
     // Sweep-line process to generate collision free line segments
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 0162eb8..1cdb115 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,10 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+        freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                             param_.boundaryLimits[5]);
     }
 
     // Sweep-line process to generate collision free line segments
-- 
2.43.0


From c16b3ce81ad65de4de50249fdf36746bbdacba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/32] fix: report the length of the solved path as its cost

The cost summed edge weights indexed by vertex ids, i.e. weights of unrelated
edges, possibly reading past the end of the weight list.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..910138b 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,13 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
+                res_.solutionPath.PathId.clear();
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From 32f3b186bb4439eb2bd843fc32cfd293a5c970c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 04/32] fix: plan in 2D with one or two C-slices

A single slice had a NaN heading; with two slices the connection loop looked
for a third one (std::out_of_range).
---
 src/planners/HRM2D.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 200a52f..eabcee0 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -52,7 +52,10 @@ void hrm::planners::HRM2D::updateFreeSpaceRobot() {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -120,7 +123,11 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         endIdCur = vertexIdx_.at(i).slice;
 
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == param_.numSlice - 1) {
+            // The only adjacent C-slice has already been connected
+            if (param_.numSlice == 2) {
+                break;
+            }
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 4c34207223487b855885d5fb223117c530add3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 05/32] fix: search start and goal neighbors in their own
 C-slices only

The closest orientation was left uninitialized when it was the first sample,
C-slices without vertices (or 2D slices farther away than vertex 0) contributed
vertex 0 of another slice, and an empty roadmap was read out of bounds.
---
 src/planners/HRM2D.cpp | 16 +++++++++++++---
 src/planners/HRM3D.cpp | 12 +++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index eabcee0..72861d1 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -299,13 +299,19 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    std::vector<Vertex> idx;
+
+    // No neighbor on an empty roadmap
+    if (res_.graphStructure.vertex.empty()) {
+        return idx;
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
     double minAngle = res_.graphStructure.vertex[0][2];
     double angleDist = 0.0;
     double euclideanDist = 0.0;
-    std::vector<Vertex> idx;
 
     // Find the closest C-slice
     minAngleDist = std::fabs(vertex[2] - minAngle);
@@ -333,8 +339,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // line gaps) at each C-slice
     for (double angCur : angList) {
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -346,6 +351,11 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex at this C-slice
+        if (minEuclideanDist == INFINITY) {
+            continue;
+        }
+
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
             radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                 static_cast<double>(param_.numLineY)) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 1cdb115..e151b88 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -454,8 +454,13 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     double euclideanDist;
     std::vector<Vertex> idx;
 
+    // No neighbor on an empty roadmap
+    if (q_.empty() || res_.graphStructure.vertex.empty()) {
+        return idx;
+    }
+
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
@@ -499,6 +504,11 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex at this C-slice
+        if (minEuclideanDist == INFINITY) {
+            continue;
+        }
+
         if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
-- 
2.43.0


From 2a1773dbbd52f2254b2eee960ff1c3092d370cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 06/32] fix: find obstacles crossed by a sweep line exactly
 through a vertex or an edge

The same point was then returned twice as entry and exit, so that the obstacle
took a zero-length interval out of the line, or as the only point.
---
 src/geometry/LineIntersection.cpp | 41 +++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..919c403 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -2,8 +2,30 @@
 
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
 #include <iostream>
 
+namespace {
+/** \brief Entry and exit points of a line through a convex mesh. A line through
+ * an edge or a vertex meets several triangles at the same point
+ * \param line The line
+ * \param points All the intersections with the triangles of the mesh
+ * \return The first and last points along the line, empty if no intersection */
+std::vector<hrm::Point3D> extremePoints(
+    const hrm::Line3D& line, const std::vector<hrm::Point3D>& points) {
+    if (points.empty()) {
+        return points;
+    }
+
+    const auto extremes = std::minmax_element(
+        points.begin(), points.end(),
+        [&line](const hrm::Point3D& p1, const hrm::Point3D& p2) {
+            return p1.dot(line.tail(3)) < p2.dot(line.tail(3));
+        });
+    return {*extremes.first, *extremes.second};
+}
+}  // namespace
+
 std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
                                                       const MeshMatrix& shape) {
     std::vector<Point3D> points;
@@ -44,13 +66,9 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
-    return points;
+    return extremePoints(line, points);
 }
 
 std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
@@ -114,13 +132,9 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
-    return points;
+    return extremePoints(line, points);
 }
 
 bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
@@ -244,5 +258,12 @@ std::vector<double> hrm::intersectHorizontalLinePolygon2D(
         }
     }
 
+    // Entry and exit points of the line: a line through a vertex of the polygon
+    // meets two edges at the same point
+    if (!points.empty()) {
+        const auto extremes = std::minmax_element(points.begin(), points.end());
+        points = {*extremes.first, *extremes.second};
+    }
+
     return points;
 }
-- 
2.43.0


From 559645c469bdad5339a018188bdbb2408e5fd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 07/32] fix: report segments crossing an obstacle exactly
 through polygon vertices

---
 src/geometry/LineIntersection.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 919c403..872ec99 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -187,6 +187,8 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
 bool hrm::isIntersectSegPolygon2D(
     const std::pair<std::vector<double>, std::vector<double>>& seg,
     const Eigen::Matrix2Xd& shape) {
+    const double tol = 1e-12;
+
     double px1 = seg.first.at(0);
     double py1 = seg.first.at(1);
     double px2 = seg.second.at(0);
@@ -216,9 +218,16 @@ bool hrm::isIntersectSegPolygon2D(
         b(0) = x1 - px1;
         b(1) = y1 - py1;
 
+        // skip degenerate edges and edges parallel to the segment
+        if (std::fabs(A.determinant()) <=
+            tol * A.col(0).norm() * A.col(1).norm()) {
+            continue;
+        }
+
         Eigen::Vector2d sol = A.colPivHouseholderQr().solve(b);
 
-        if ((sol(0) > 0 && sol(0) < 1) && (sol(1) > 0 && sol(1) < 1)) {
+        // the segment might cross the polygon exactly at the ends of an edge
+        if ((sol(0) > 0 && sol(0) < 1) && (sol(1) > -tol && sol(1) < 1 + tol)) {
             return true;
         }
     }
-- 
2.43.0


From 3fcfc9f58b8c58074adb280cf251e37c9c201bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 08/32] fix: sort the free segments of the last sweep line
 after enhancement

---
 include/hrm/datastructure/FreeSpace-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 819790a..6f52056 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -133,7 +133,7 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
     FreeSegment2D enhanced = segment_;
 
     // Add new vertices within on sweep line
-    for (size_t i = 0; i < segment_.ty.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < segment_.ty.size(); ++i) {
         for (size_t j1 = 0; j1 < segment_.xM[i].size(); ++j1) {
             for (size_t j2 = 0; j2 < segment_.xM[i + 1].size(); ++j2) {
                 if (enhanced.xM[i][j1] < enhanced.xL[i + 1][j2] &&
@@ -161,7 +161,10 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
                 }
             }
         }
+    }
 
+    // Sort vertices along each sweep line, including the last one
+    for (size_t i = 0; i < segment_.ty.size(); ++i) {
         sort(enhanced.xL[i].begin(), enhanced.xL[i].end(),
              [](double a, double b) { return a < b; });
         sort(enhanced.xU[i].begin(), enhanced.xU[i].end(),
-- 
2.43.0


From 97a2a3a9ffb2814e7eaf8527cde32141abc15b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/32] fix: keep the free segments inside both the arena and
 its boundary limits

The intervals of the arena were merged with the limits instead of intersected,
and sweep lines missing the arena were entirely free.
---
 src/datastructure/FreeSpace2D.cpp | 9 +++++----
 src/datastructure/FreeSpace3D.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..2d9e89a 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -19,13 +19,14 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             const auto intersectPointArena = intersectHorizontalLinePolygon2D(
                 tLine.at(0).at(i), cSpaceBoundary_.arena.at(j));
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line outside the arena: no free interval
+                intersect_.arenaLow.at(i).at(j) = upBound_;
+                intersect_.arenaUpp.at(i).at(j) = lowBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                intersect_.arenaLow.at(i).at(j) = std::fmax(
                     lowBound_,
                     std::fmin(intersectPointArena[0], intersectPointArena[1]));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                intersect_.arenaUpp.at(i).at(j) = std::fmin(
                     upBound_,
                     std::fmax(intersectPointArena[0], intersectPointArena[1]));
             }
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..0c4c523 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -38,14 +38,15 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 lineZ, cSpaceBoundaryMesh_.arena.at(j));
 
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line outside the arena: no free interval
+                intersect_.arenaLow.at(i).at(j) = upBound_;
+                intersect_.arenaUpp.at(i).at(j) = lowBound_;
             } else {
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
+                    std::fmax(lowBound_, std::fmin(intersectPointArena[0](2),
                                                    intersectPointArena[1](2)));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
+                    std::fmin(upBound_, std::fmax(intersectPointArena[0](2),
                                                   intersectPointArena[1](2)));
             }
         }
-- 
2.43.0


From 6da1ca64add5aceeb80c32a86845989f55882134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 10/32] fix: return enclosing ellipses and ellipsoids with
 their actual orientation

The sign of the 2D angle was lost, and improper axes (reflections) were turned
into unrelated rotations in 3D, so that the fitted shape cut through the bodies
it should enclose.
---
 src/geometry/TightFitEllipsoid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..3b5b6b7 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,12 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    // Principal axes as a proper rotation
+    Eigen::Matrix3d Rc = svd.matrixU();
+    if (Rc.determinant() < 0.0) {
+        Rc.col(2) *= -1.0;
+    }
+    const Eigen::Quaterniond quatC(Rc);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From 0b1ead97735d35d9a849387d70b6f998b50b648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 11/32] fix: return both ends when interpolating with no
 intermediate step

The result was overwritten by an interpolation with a step of 1/0 (NaN).
---
 src/util/InterpolateSE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..f9ab158 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return std::vector<std::vector<Coordinate>>({vStart, vEnd});
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 9926e6f3c14d2cd52b860abe12d91798a63a2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 12/32] fix: interpolate the solved path of rigid-body HRM3D

The interpolation hid the virtual function of the base planner instead of
overriding it, so that planning returned the bare solved path; its step followed
from a cost that can be zero.
---
 include/hrm/planners/HRM3D.h              |  2 +-
 include/hrm/planners/HighwayRoadMap-inl.h |  2 +-
 include/hrm/planners/HighwayRoadMap.h     |  2 +-
 src/planners/HRM3D.cpp                    | 14 ++++++++++----
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 641417c..71da9b9 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const Index num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index 910138b..e4e8a7f 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -283,7 +283,7 @@ HighwayRoadMap<RobotType, ObjectType>::getSolutionPath() {
 template <class RobotType, class ObjectType>
 std::vector<std::vector<double>>
 HighwayRoadMap<RobotType, ObjectType>::getInterpolatedSolutionPath(
-    const unsigned int num) {
+    const Index num) {
     std::vector<std::vector<Coordinate>> interpPath =
         res_.solutionPath.solvedPath;
     return interpPath;
diff --git a/include/hrm/planners/HighwayRoadMap.h b/include/hrm/planners/HighwayRoadMap.h
index cdeadab..966ef96 100644
--- a/include/hrm/planners/HighwayRoadMap.h
+++ b/include/hrm/planners/HighwayRoadMap.h
@@ -98,7 +98,7 @@ class HighwayRoadMap {
     /** \brief Interpolate solved path
      * \return 2D vector for representing interpolated path */
     virtual std::vector<std::vector<double>> getInterpolatedSolutionPath(
-        const unsigned int num);
+        const Index num);
 
     /** \brief Main routine for HRM-based planners */
     virtual void plan(const double timeLim);
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index e151b88..3ec4558 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -279,17 +279,23 @@ hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
     // Compute distance per step
+    double pathLength = 0.0;
+    for (size_t i = 0; i + 1 < res_.solutionPath.solvedPath.size(); ++i) {
+        pathLength += vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1));
+    }
     const double distanceStep =
-        res_.solutionPath.cost /
+        pathLength /
         (static_cast<double>(num) *
          (static_cast<double>(res_.solutionPath.solvedPath.size()) - 1.0));
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
+        const double distance =
             vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+                            res_.solutionPath.solvedPath.at(i + 1));
+        const auto numStep = static_cast<int>(
+            distance > 0.0 ? distance / distanceStep : 0.0);
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
-- 
2.43.0


From 28d81d5818a97fcbf50b634e48850585bda228b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 13/32] fix: refine articulated-robot slices with their own
 joint angles

Vertices added by refinement carried the joint angles of the latest slice instead
of those the slice's C-obstacles were computed for.
---
 include/hrm/planners/ProbHRM3D.h |  5 +++++
 src/planners/ProbHRM3D.cpp       | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..cb074e1 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -29,6 +29,8 @@ class ProbHRM3D : public HRM3D {
     void plan(const double timeLim) override;
 
   protected:
+    void constructOneSlice(const Index sliceIdx) override;
+
     void sampleOrientations() override;
 
     void connectMultiSlice() override;
@@ -54,6 +56,9 @@ class ProbHRM3D : public HRM3D {
     /** \brief KDL parser for URDF file */
     ParseURDF* kdl_;
 
+    /** \brief Index of the C-slice under construction */
+    Index currentSlice_ = 0;
+
     /** \brief Name of URDF file */
     std::string urdfFile_;
 
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..bade8c5 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -64,6 +64,11 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
     }
 }
 
+void hrm::planners::ProbHRM3D::constructOneSlice(const Index sliceIdx) {
+    currentSlice_ = sliceIdx;
+    HRM3D::constructOneSlice(sliceIdx);
+}
+
 void hrm::planners::ProbHRM3D::sampleOrientations() {
     // Iteratively add slices with random orientations
     srand(unsigned(std::time(nullptr)));
@@ -165,7 +170,8 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    const std::vector<Coordinate>& config = v_.at(currentSlice_);
+    std::vector<Coordinate> vertex(config.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -181,8 +187,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < config.size(); ++m) {
+                vertex.at(m) = config.at(m);
             }
 
             // Construct a std::vector of vertex
-- 
2.43.0


From d007fb487c597e57af755e9a3676ef1ccd0227da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 14/32] fix: sample a new base rotation for every C-slice of
 ProbHRM3D

The generator was seeded with the time in seconds before each sample, so that all
the C-slices added within the same second had the same base rotation.
---
 src/planners/ProbHRM3D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index bade8c5..5e589db 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -11,6 +11,7 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
                                     const PlanningRequest& req)
     : HRM3D::HRM3D(robot, arena, obs, req), urdfFile_(std::move(urdfFile)) {
     kdl_ = new ParseURDF(urdfFile_);
+    srand(unsigned(std::time(nullptr)));
 }
 
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
@@ -71,7 +72,6 @@ void hrm::planners::ProbHRM3D::constructOneSlice(const Index sliceIdx) {
 
 void hrm::planners::ProbHRM3D::sampleOrientations() {
     // Iteratively add slices with random orientations
-    srand(unsigned(std::time(nullptr)));
     ompl::RNG rng;
 
     // Randomly sample rotation of base
-- 
2.43.0


From 95845c5e033450586c1ea7f320f6d3330e571d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 15/32] fix: do not count search and refinement time twice in
 ProbHRM3D

The build time of each round included the previous search, so that planning gave
up before its time limit.
---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 5e589db..b9de15b 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -17,10 +17,11 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
-    auto start = Clock::now();
     param_.numSlice = 0;
 
     do {
+        auto start = Clock::now();
+
         // Randomly generate rotations and joint angles
         sampleOrientations();
 
-- 
2.43.0


From 321e3b217836bd60bd9b81183ad646ce9603991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/32] fix: enclose 2D links along the rotation they actually
 follow

The heading of a link was wrapped to (-PI, PI] at both ends, so that the fitted
ellipse covered the rotation in the opposite direction when it crossed PI.
---
 src/planners/HRM2D.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 72861d1..9d681f1 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -386,13 +386,11 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
         Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
-
-        tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
-            uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
+
+        // Links rotate by the same angle as the base (without wrapping)
+        tfe.push_back(getTFE2D(robot_.getLinks().at(i).getSemiAxis(),
+                               thetaA + rotLink.angle(),
+                               thetaB + rotLink.angle(), uint(param_.numPoint),
+                               robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From 6ecd982af307fa76e041abe72ad1e084e37024c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 17/32] fix: store the whole roadmap and the interpolated path
 of OMPL2D

---
 src/planners/ompl_interface/OMPL2D.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..40bca24 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -22,13 +22,14 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
         auto path = ss_->getSolutionPath();
         lengthPath_ = ss_->getSolutionPath().getStates().size();
 
+        for (auto *state : path.getStates()) {
+            path_.push_back(setVectorFromState(state));
+        }
+
         // Save interpolated path
         path.interpolate(INTERPOLATION_NUMBER);
         for (auto *state : path.getStates()) {
-            path_.push_back(
-                {state->as<ob::SE2StateSpace::StateType>()->getX(),
-                 state->as<ob::SE2StateSpace::StateType>()->getY(),
-                 state->as<ob::SE2StateSpace::StateType>()->getYaw()});
+            path_interp_.push_back(setVectorFromState(state));
         }
     }
 
@@ -45,7 +46,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (unsigned int i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +54,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (unsigned int i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From bfbe9683acc19c9a111d92a9a01b9c45a44dd82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 18/32] fix: do not return the path of a previous OMPL query

---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..0bde194 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -62,6 +62,9 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     const std::vector<Coordinate> &start, const std::vector<Coordinate> &goal,
     const double maxTimeInSec) {
     isSolved_ = false;
+    lengthPath_ = 0;
+    path_.clear();
+    path_interp_.clear();
     if (!ss_) {
         return isSolved_;
     }
-- 
2.43.0


From ca45f0e3b719df322e74d7be5aac1c92e2507179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 19/32] fix: line through a thin triangle or an edge of a mesh

Triangles around the poles of a sampled surface are slivers; the line was
reported to hit them far away from the surface, or to miss the common edge
of two thin triangles, so that one end of the section was lost.
---
 src/geometry/LineIntersection.cpp | 63 +++++++++++++------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 872ec99..d40e1ae 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -96,28 +96,20 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
      */
     for (auto i = 0; i < shape.faces.rows(); ++i) {
         // ignore the face that is out of range
-        if (line(0) <
-                std::fmin(
-                    shape.vertices(0, int(shape.faces(i, 0))),
-                    std::fmin(shape.vertices(0, int(shape.faces(i, 1))),
-                              shape.vertices(0, int(shape.faces(i, 2))))) ||
-            line(0) >
-                std::fmax(
-                    shape.vertices(0, int(shape.faces(i, 0))),
-                    std::fmax(shape.vertices(0, int(shape.faces(i, 1))),
-                              shape.vertices(0, int(shape.faces(i, 2)))))) {
-            continue;
+        bool outOfRange = false;
+        for (auto j = 0; j < 2; ++j) {
+            const double v0 = shape.vertices(j, int(shape.faces(i, 0)));
+            const double v1 = shape.vertices(j, int(shape.faces(i, 1)));
+            const double v2 = shape.vertices(j, int(shape.faces(i, 2)));
+            const double low = std::fmin(v0, std::fmin(v1, v2));
+            const double high = std::fmax(v0, std::fmax(v1, v2));
+
+            // a line through an edge is in the range of its faces
+            const double margin = 1e-8 * (high - low);
+            outOfRange = outOfRange || line(j) < low - margin ||
+                         line(j) > high + margin;
         }
-        if (line(1) <
-                std::fmin(
-                    shape.vertices(1, int(shape.faces(i, 0))),
-                    std::fmin(shape.vertices(1, int(shape.faces(i, 1))),
-                              shape.vertices(1, int(shape.faces(i, 2))))) ||
-            line(1) >
-                std::fmax(
-                    shape.vertices(1, int(shape.faces(i, 0))),
-                    std::fmax(shape.vertices(1, int(shape.faces(i, 1))),
-                              shape.vertices(1, int(shape.faces(i, 2)))))) {
+        if (outOfRange) {
             continue;
         }
 
@@ -141,10 +133,16 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
                                   const Eigen::Vector3d& u,
                                   const Eigen::Vector3d& v, Point3D& pt) {
     const double tol = 1e-12;
+    const double tolEdge = 1e-9;
 
-    // triangle normal
+    // triangle normal, ignore slivers whose plane is numerically undetermined
     Eigen::Vector3d n;
     n = u.cross(v);
+    if (n.norm() <= 1e-6 * std::fmax(u.squaredNorm(),
+                                     std::fmax(v.squaredNorm(),
+                                               (u - v).squaredNorm()))) {
+        return false;
+    }
     n.normalize();
 
     // vector between triangle origin and line origin
@@ -161,27 +159,18 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
     pt = line.head(3) + a / b * line.tail(3);
 
     // Test if intersection point is inside triangle
-    // normalize direction vectors of triangle edges
-    const double uu = u.dot(u);
-    const double uv = u.dot(v);
-    const double vv = v.dot(v);
-
-    // coordinates of vector v in triangle basis
-    const double wu = u.dot(pt - t0);
-    const double wv = v.dot(pt - t0);
-
-    // normalization constant
-    const double D = pow(uv, 2) - uu * vv;
+    const Eigen::Vector3d w = pt - t0;
+    const Eigen::Vector3d m = n / u.cross(v).norm();
 
     // test first coordinate
-    const double s = (uv * wv - vv * wu) / D;
-    if ((s < -tol) || (s > 1.0 + tol)) {
+    const double s = m.dot(w.cross(v));
+    if ((s < -tolEdge) || (s > 1.0 + tolEdge)) {
         return false;
     }
 
     // test second coordinate and third triangle edge
-    const double t = (uv * wu - uu * wv) / D;
-    return !((t < -tol) || (s + t > 1.0 + tol));
+    const double t = m.dot(u.cross(w));
+    return !((t < -tolEdge) || (s + t > 1.0 + tolEdge));
 }
 
 bool hrm::isIntersectSegPolygon2D(
-- 
2.43.0


From bc6e8dec5d9b3cafa140f18122efba120d9b1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 20/32] fix: close the sampled boundary of superellipses
 exactly

---
 src/geometry/SuperEllipse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..8729e44 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -48,6 +48,8 @@ hrm::BoundaryPoints hrm::SuperEllipse::getOriginShape() const {
         xCanonical(0, i) = x(0, 0);
         xCanonical(1, i) = x(1, 0);
     }
+    // close the curve exactly, small exponents magnify the rounding at 2*PI
+    xCanonical.rightCols(1) = xCanonical.leftCols(1);
 
     xTransformed = Eigen::Rotation2Dd(angle_).matrix() * xCanonical + C;
 
@@ -92,6 +94,7 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
         gradPhi(1, i) =
             2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
     }
+    gradPhi.rightCols(1) = gradPhi.leftCols(1);
     xMinkowski =
         getOriginShape() +
         (K * r * Tinv * Tinv * R1 * gradPhi)
-- 
2.43.0


From 853bb138226444051ec2b8fcd9aaa474119baf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 21/32] fix: use the actual normal of the superellipse in 2D
 Minkowski sums

---
 src/geometry/SuperEllipse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 8729e44..6545a23 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -90,9 +90,10 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / (a1 * eps1) *
+            exponentialFunction(the(0, i), 2 - eps1, false);
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / (b1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, true);
     }
     gradPhi.rightCols(1) = gradPhi.leftCols(1);
     xMinkowski =
-- 
2.43.0


From 23a15919d6fe38056fd3ea771fbce134fbf15119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 22/32] fix: collide 2D superellipses with their own exponent

---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0


From 068532c706f6da5cb0e53f0d09e73e82199c4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 23/32] fix: report a collision of a body entirely inside a
 superquadric

---
 src/util/EllipsoidSQCollisionFCL.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 4d860c6..d53a9f7 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -4,6 +4,28 @@
 
 using GeometryPtr = std::shared_ptr<fcl::CollisionGeometry<double>>;
 
+namespace {
+/** \brief Check whether the center of a body is inside another body
+ * \param body The body
+ * \param other The body whose center is checked
+ * \return true if the center is inside */
+bool isCenterInside(const hrm::SuperQuadrics& body,
+                    const hrm::SuperQuadrics& other) {
+    const Eigen::Vector3d x =
+        body.getQuaternion().conjugate() *
+        (Eigen::Vector3d(other.getPosition().data()) -
+         Eigen::Vector3d(body.getPosition().data()));
+    const auto& a = body.getSemiAxis();
+    const auto& eps = body.getEpsilon();
+
+    return std::pow(std::pow(std::fabs(x(0) / a.at(0)), 2.0 / eps.at(1)) +
+                        std::pow(std::fabs(x(1) / a.at(1)), 2.0 / eps.at(1)),
+                    eps.at(1) / eps.at(0)) +
+               std::pow(std::fabs(x(2) / a.at(2)), 2.0 / eps.at(0)) <
+           1.0;
+}
+}  // namespace
+
 bool hrm::isCollision(const SuperQuadrics& object1,
                       fcl::CollisionObject<double> collisionObject1,
                       const SuperQuadrics& object2,
@@ -21,7 +43,9 @@ bool hrm::isCollision(const SuperQuadrics& object1,
     fcl::CollisionResult<double> result;
     fcl::collide(&collisionObject1, &collisionObject2, request, result);
 
-    return result.isCollision();
+    // a body entirely inside another one does not meet its mesh
+    return result.isCollision() || isCenterInside(object1, object2) ||
+           isCenterInside(object2, object1);
 }
 
 bool hrm::isCollision(const SuperEllipse& object1,
-- 
2.43.0


From a0fb921d7124be5722b33b91203872eaa855fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 24/32] fix: decide the separation of ellipsoids of very
 different sizes

---
 src/util/EllipsoidSeparation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/util/EllipsoidSeparation.cpp b/src/util/EllipsoidSeparation.cpp
index 8e44f78..7b83986 100644
--- a/src/util/EllipsoidSeparation.cpp
+++ b/src/util/EllipsoidSeparation.cpp
@@ -2,10 +2,19 @@
 
 #include "hrm/util/EllipsoidSeparation.h"
 
+#include <algorithm>
 #include <iostream>
 
 bool hrm::isEllipsoidSeparated(const SuperQuadrics& ellipsoidA,
                                const SuperQuadrics& ellipsoidB) {
+    // The roots are well conditioned when the first ellipsoid is the larger one
+    if (std::max({ellipsoidA.getSemiAxis().at(0), ellipsoidA.getSemiAxis().at(1),
+                  ellipsoidA.getSemiAxis().at(2)}) <
+        std::max({ellipsoidB.getSemiAxis().at(0), ellipsoidB.getSemiAxis().at(1),
+                  ellipsoidB.getSemiAxis().at(2)})) {
+        return isEllipsoidSeparated(ellipsoidB, ellipsoidA);
+    }
+
     // Semi-axis
     Eigen::DiagonalMatrix<double, 4> A;
     A.diagonal() = {std::pow(ellipsoidA.getSemiAxis().at(0), -2.0),
@@ -125,6 +134,14 @@ bool hrm::isEllipseSeparated(const SuperEllipse& ellipsoidA,
         std::cerr << "Object not an ellipse!" << std::endl;
     }
 
+    // The roots are well conditioned when the first ellipse is the larger one
+    if (std::max(ellipsoidA.getSemiAxis().at(0),
+                 ellipsoidA.getSemiAxis().at(1)) <
+        std::max(ellipsoidB.getSemiAxis().at(0),
+                 ellipsoidB.getSemiAxis().at(1))) {
+        return isEllipseSeparated(ellipsoidB, ellipsoidA);
+    }
+
     // Semi-axis
     Eigen::DiagonalMatrix<double, 3> A;
     A.diagonal() = {std::pow(ellipsoidA.getSemiAxis().at(0), -2.0),
-- 
2.43.0


From 4a5494342e750a0507ea08d396c164254f54b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 25/32] fix: use the sweep-line gap in y when attaching 2D
 queries

---
 src/planners/HRM2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 9d681f1..a50b1f4 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -357,7 +357,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
         }
 
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-            radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+            radius * (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
                 static_cast<double>(param_.numLineY)) {
             idx.push_back(idxSlice);
         }
-- 
2.43.0


From 79015c9bc064742a2bcb99deb27d17f4a1ba85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 26/32] fix: do not connect the first C-slice of HRM3D with
 itself

---
 src/planners/HRM3D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 3ec4558..191a4c5 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -165,8 +165,8 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         return;
     }
 
-    for (size_t i = 0; i < vertexIdx_.size(); ++i) {
-        // Find the nearest C-slices
+    for (size_t i = 1; i < vertexIdx_.size(); ++i) {
+        // Find the nearest C-slice among the previous ones
         double minDist = INFINITY;
         int minIdx = 0;
         for (size_t j = 0; j != i && j < param_.numSlice; ++j) {
-- 
2.43.0


From 988fa84aef786dd0a7b516e96a731cc3c8f75746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 27/32] fix: do not refine a ProbHRM3D roadmap that is solved
 or out of time

---
 src/planners/ProbHRM3D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index b9de15b..3b20c47 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -51,8 +51,9 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
         res_.planningTime.totalTime =
             res_.planningTime.buildTime + res_.planningTime.searchTime;
 
-        // Double the number of sweep lines for every 10 iterations
-        if (param_.numSlice % 60 == 0 &&
+        // Double the number of sweep lines for every 60 slices, if not solved yet
+        if (!res_.solved && res_.planningTime.totalTime < timeLim &&
+            param_.numSlice % 60 == 0 &&
             vertexIdxAll_.size() < param_.numPoint) {
             refineExistRoadmap(timeLim);
         }
-- 
2.43.0


From a490e1705d75a64091af855fcf29a09ab938353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 28/32] fix: forget earlier queries before a sampling-based
 planner starts a new one

---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 0bde194..52e34e7 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -69,7 +69,8 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
         return isSolved_;
     }
 
-    // Set start and goal states for planning
+    // Set start and goal states for planning, without data of previous queries
+    ss_->clear();
     setStartAndGoalState(start, goal);
 
     // Path planning
-- 
2.43.0


From db86c169817079658f6055c98c54fca1ab2b1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 29/32] fix: mesh every C-space boundary with the sampling of
 its own arena or obstacle

---
 src/datastructure/FreeSpace3D.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 0c4c523..4a9da06 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -16,13 +16,15 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
+    // Each arena or obstacle has one boundary for each body of the robot
+    const size_t numBody = 1 + robot_.getNumLinks();
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From 8609083b863827a00c8b9066f346c2c133b523d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 30/32] fix: report the length of the simplified path in three
 dimensions

---
 src/planners/ompl_interface/OMPL3D.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/planners/ompl_interface/OMPL3D.cpp b/src/planners/ompl_interface/OMPL3D.cpp
index cc6d399..e9885d9 100644
--- a/src/planners/ompl_interface/OMPL3D.cpp
+++ b/src/planners/ompl_interface/OMPL3D.cpp
@@ -23,6 +23,8 @@ void hrm::planners::ompl_interface::OMPL3D::getSolution() {
             // Get solution path
             ss_->simplifySolution();
             auto path = ss_->getSolutionPath();
+            lengthPath_ = path.getStates().size();
+
             for (auto *state : path.getStates()) {
                 path_.push_back(setVectorFromState(state));
             }
-- 
2.43.0


From ecbbd1648409bdc0adcf791d33fba2ced97e04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 31/32] fix: count the motions checked for the current query
 only

---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 52e34e7..f19c755 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -71,6 +71,7 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
 
     // Set start and goal states for planning, without data of previous queries
     ss_->clear();
+    ss_->getSpaceInformation()->getMotionValidator()->resetMotionCounter();
     setStartAndGoalState(start, goal);
 
     // Path planning
-- 
2.43.0


From 50e15cfd6296c131ca82925b7bc5025c1c3fb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:26 +0000
Subject: [PATCH 32/32] fix: compute C-space boundaries of 3D links relative to
 the base

The boundaries of the links were shifted when the base of the robot was not at the
origin.
---
 src/datastructure/MultiBodyTree3D.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/MultiBodyTree3D.cpp b/src/datastructure/MultiBodyTree3D.cpp
index eff2e76..a6ddeb0 100644
--- a/src/datastructure/MultiBodyTree3D.cpp
+++ b/src/datastructure/MultiBodyTree3D.cpp
@@ -95,10 +95,12 @@ std::vector<hrm::BoundaryPoints> hrm::MultiBodyTree3D::minkSum(
     // Minkowski sums for Base
     mink.push_back(s1.getMinkSum3D(base_, k));
 
-    // Minkowski sums for Links
+    // Minkowski sums for Links, relative to the center of the base
+    const Point3D baseTc(base_.getPosition().data());
     for (size_t i = 0; i < numLinks_; ++i) {
-        mink.emplace_back(s1.getMinkSum3D(link_.at(i), k).colwise() -
-                          Point3D(link_.at(i).getPosition().data()));
+        const Point3D linkTc =
+            Point3D(link_.at(i).getPosition().data()) - baseTc;
+        mink.emplace_back(s1.getMinkSum3D(link_.at(i), k).colwise() - linkTc);
     }
 
     return mink;
-- 
2.43.0

