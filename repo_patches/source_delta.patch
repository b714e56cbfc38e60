From 64e510012aff4c79ccf4a1b7408d7b9a14c45d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 01/34] fix: batch sampling of a state space returns the
 samples

The batch overloads wrote into a vector that was only reserved (always returned
empty, undefined behaviour) and the Gaussian one did not compile when used.
---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 8be4351138d32d7b4cb4be17ff1d6131b621fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 02/34] fix: StateSpace(lb, ub) constructor is ambiguous when
 instantiated

---
 planner/src/state_space/state_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index b64b2d4..cd90612 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -20,7 +20,7 @@ namespace Planner {
 			Random<T>::Init();
 		}
 		StateSpace(const State& lb, const State& ub) :
-			StateSpace({ lb, ub }) { }
+			StateSpace(std::array<State, 2> { lb, ub }) { }
 		virtual ~StateSpace() = default;
 
 		/// @brief Modify the state if necessary to enforce state bounds
-- 
2.43.0


From c5caa64e57ba09421f554acc5bf4382e86c1964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 03/34] fix: StateValidator::IsPathValid(path, State*) passes
 the ratio by address

The overload did not compile when instantiated.
---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From 57bfd8ae48ffea171056e4a171afc567c7650e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 04/34] fix: obstacle heuristic replaces a queued cell by a
 cheaper path

The queued cost was compared with itself, so shortcuts were never taken.
---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..f5eef83 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 98af2678fc984a01e91b7bf6b4a2aef7a483c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 05/34] fix: non-holonomic heuristic indexes its table with a
 non-negative heading

Headings are wrapped to [-pi, pi], so every negative relative heading read
before the table.
---
 planner/src/algo/heuristics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index f5eef83..0d1fa2c 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -81,7 +81,8 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
+		double theta = delta.theta < 0 ? delta.theta + 2 * M_PI : delta.theta;
+		int k = (int)round(theta / angularResolution);
 		if (k == numAngular)
 			k = 0;
 
-- 
2.43.0


From cc50ac800eb75f386504e6bc89ec29c5c5d177b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 06/34] fix: RRT* keeps the validated connection when no near
 node is a better parent

With no valid connection from the near nodes, the new node was attached to an
unvalidated nearest node with a null path and an infinite cost.
---
 planner/src/algo/rrt_star.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..0e9deb9 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -83,9 +83,9 @@ namespace Planner {
 				// FIXME need to use radius search to make sure that the connection length is always less than maxConnectionDistance
 				unsigned int nn = std::max<unsigned int>(1, log(m_tree.Size()));
 				std::vector<TreeNode*> nearNodes = m_tree.GetNearestNodes(newState, nn);
-				TreeNode* bestParentNode = nullptr;
-				double bestCost = std::numeric_limits<double>::infinity();
-				Ref<Path<Vertex>> bestPath;
+				TreeNode* bestParentNode = nearestNode;
+				double bestCost = (*nearestNode)->info.costFromGoal + pathNearToNew->GetLength();
+				Ref<Path<Vertex>> bestPath = pathNearToNew;
 				for (const auto node : nearNodes) {
 					auto [pathParentToNew, transitionCost] = SteerExactly((*node)->state, newState);
 					double cost = (*node)->info.costFromGoal + transitionCost;
-- 
2.43.0


From e9ae9899b924d81e884764d7491be503d87b72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 07/34] fix: a failed query does not leave the path of an
 earlier query behind

---
 planner/src/algo/a_star.h               | 1 +
 planner/src/algo/bidirectional_a_star.h | 2 ++
 planner/src/algo/hybrid_a_star.cpp      | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..3adc174 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -328,6 +328,7 @@ namespace Planner {
 			PP_PROFILE_FUNCTION();
 
 			if (!isInitialized) {
+				m_solutionNode = nullptr;
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
 			}
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..1dd71cd 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -130,6 +130,8 @@ namespace Planner {
 		virtual Status SearchPath() override
 		{
 			if (!isInitialized) {
+				m_fSearch.m_solutionNode = nullptr;
+				m_rSearch.m_solutionNode = nullptr;
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
 			}
diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..c25c6a4 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -240,6 +240,8 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
-- 
2.43.0


From 959c2021ac7180bf0c26055e3206d4b6ffd6edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 08/34] fix: moving an occupancy map also moves its grid

---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..f8571bb 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From 4b8e69f53a55a32b9c71637c30f7367e1a3868de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 09/34] fix: positions just outside the map are not put in its
 first row or column

---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index f8571bb..212d33a 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -109,8 +109,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 16e1590fc3c0c60553e58ef3cc4352d847408f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 10/34] fix: LfSfRf reports an infeasible word as infinitely
 long

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..22dba0a 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -44,7 +44,7 @@ namespace Planner {
 				double t1 = std::atan2(y, x);
 
 				if (u1squared < 4)
-					std::numeric_limits<double>::infinity();
+					return std::numeric_limits<double>::infinity();
 
 				u = sqrt(u1squared - 4);
 				double phi = atan2(2, u);
-- 
2.43.0


From 3e391d8d531975575347706095a7cc033f91e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 11/34] fix: Reeds-Shepp cost applies the forward multiplier
 when the reverse one is 1

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 22dba0a..c727f73 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From 5332ff43b91151ba1d914ade001da9d27955453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 12/34] fix: truncating a Reeds-Shepp path drops the motions
 after the cut

The loop cleared the motion that was just cut instead of the following ones, and
the length of the segment, used for its cost, was left unchanged.
---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From e670c37f3e6841cc913741036d088332d8158abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 13/34] fix: composite path reports cusps at their place along
 the whole path

---
 planner/src/paths/path_composite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..a5877a5 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -17,7 +17,8 @@ namespace Planner {
 
 			// Check for cusp point in the path
 			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : cusps)
+				ratios.insert((length + cusp * path.second->GetLength()) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
 			length += path.second->GetLength();
-- 
2.43.0


From aea9be3aff0af0e3fdc4e7b9df7b79b510a88f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 14/34] fix: direction at the end of a composite path

---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index a5877a5..5f4f195 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -29,7 +29,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From 5fa0776e56b41518bd07d5dfad91c76c45b016f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 15/34] fix: composite path starts where its first piece starts

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..79cc6b5 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
-- 
2.43.0


From e792fe69f08cecd5480115777f0724fca266d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 16/34] fix: truncated composite path records where its last
 piece now ends

---
 planner/src/paths/path_composite.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 79cc6b5..11311bd 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -67,6 +67,7 @@ namespace Planner {
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
 			m_paths.erase(std::next(it), m_paths.end());
+			m_paths.back().first.finalLength = this->m_length;
 		}
 
 	protected:
-- 
2.43.0


From c1692abb499a80423db5bf3fd2b9f2452539c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 17/34] fix: Hybrid A* charges the direction switching cost

The direction of the new motion was compared with itself, so the switching cost
was never charged when a motion reverses the direction of its parent.
---
 planner/src/algo/hybrid_a_star.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index c25c6a4..6eaa6f0 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -139,7 +139,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = state.direction == Direction::NoMotion || state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -162,6 +162,9 @@ namespace Planner {
 
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
+		Direction direction = path->GetDirection(0.0);
+		if (state.direction != Direction::NoMotion && direction != Direction::NoMotion && direction != state.direction)
+			pathAndSwitchingCosts += m_param.directionSwitchingCost;
 		child = CreateStateFromPath(path);
 		action.path = std::move(path);
 
-- 
2.43.0


From ec2bb28444fb5ab6a5ceb489ab54454e35473288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 18/34] fix: Hybrid A* accumulates the Voronoi cost along the
 motion

Only the last sample was kept.
---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 6eaa6f0..a354a6f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -101,7 +101,7 @@ namespace Planner {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From 0544fcf20f3bb3ac46f1b4e30b37cb5455e3a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 19/34] fix: Voronoi cost does not read outside the map

The samples of the Voronoi cost are not the poses that were validated, and the
bounds were only checked by an assertion.
---
 planner/src/algo/hybrid_a_star.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index a354a6f..4f02300 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -100,7 +100,8 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
+			if (!m_occupancyMap->IsInsideMap(cell))
+				continue;
 			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
-- 
2.43.0


From 19662359ee554a7a33252dbb59ffe32161d7b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 20/34] fix: path validation checks the final state

The last interpolated pose lies before the end of the path, so a path ending in
an obstacle or outside the map could be accepted; a rejected zero-length path
was reported as valid up to its end.
---
 .../state_validator_occupancy_map.cpp                | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..1356593 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -32,9 +32,10 @@ namespace Planner {
 		const auto& bounds = m_stateSpace->bounds;
 		const double pathLength = path.GetLength();
 		if (pathLength == 0.0) {
+			bool valid = IsStateValid(path.GetInitialState());
 			if (last)
-				*last = 1.0f;
-			return IsStateValid(path.GetInitialState());
+				*last = valid ? 1.0f : 0.0f;
+			return valid;
 		}
 
 		double lastValidLength = 0.0;
@@ -65,6 +66,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// Check the final state
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From 5a208ed6a153fbdd289684efe6a8761d9f4b3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 21/34] fix: Hybrid A* never steers more than the minimum
 turning radius allows

With more than five generated motions the steering angle exceeded its maximum.
---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 4f02300..fb3b89f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -22,7 +22,7 @@ namespace Planner {
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
 		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+			double delta = (i + 1.0) / (m_param.numGeneratedMotion / 2) * deltaMax;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From 45389ae31e9a79286fd911e0a947b66411b9f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 22/34] fix: the average heuristic gives the current goal to
 the heuristics it averages

---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 3adc174..c628c0e 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -31,6 +31,8 @@ namespace Planner {
 	class AStarHeuristic {
 		template <typename S>
 		friend class AStarCombinedHeuristic;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 1dd71cd..e4e4d06 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From 2ecf8b84b303261f9fb1074cc58a4912b4aaaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 23/34] fix: the sampled Hybrid A* path contains every cusp and
 ends at the goal

The end of the path was skipped unless it happened to lie close to a multiple of
the interpolation distance, and after two cusps closer than that distance no
further cusp was found.
---
 planner/src/algo/hybrid_a_star.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb3b89f..eac02a6 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -280,16 +280,21 @@ namespace Planner {
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
 			auto cuspRatioIt = cuspRatios.begin();
 			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
+				// Sample cusp points
+				bool isCusp = false;
+				for (; cuspRatioIt != cuspRatios.end() && *cuspRatioIt * pathLength <= length + pathInterpolation / 2; cuspRatioIt++) {
 					cuspIndices.insert(ratios.size());
 					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
-					ratios.push_back(length / pathLength);
+					isCusp = true;
 				}
+				// Sample at regular interval
+				if (!isCusp)
+					ratios.push_back(length / pathLength);
+			}
+			// Sample the remaining points up to the end of the path
+			for (; cuspRatioIt != cuspRatios.end(); cuspRatioIt++) {
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(*cuspRatioIt);
 			}
 
 			// Sample points
-- 
2.43.0


From b2561c6fe943c89a351d2d52bd28c8f556f941f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 24/34] fix: Hybrid A* query whose start is its goal

Interpolating the empty path threw std::out_of_range.
---
 planner/src/algo/hybrid_a_star.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index eac02a6..e3d6319 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -270,6 +270,10 @@ namespace Planner {
 
 			// Get composite path
 			auto path = m_graphSearch.GetCompositePath();
+			if (path->Size() == 0) {
+				m_path = { this->m_init };
+				return m_stats.graphSearchStatus;
+			}
 			const double pathLength = path->GetLength();
 
 			// Generate ratio at which to sample the path and find indices of cusp points
-- 
2.43.0


From cdcff1c0d19edb6d5d72d0e3a855ab2666f3a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 25/34] fix: bidirectional path contains the meeting state once

---
 planner/src/algo/bidirectional_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index e4e4d06..077f976 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -69,7 +69,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			// The meeting state is the last state of both paths
+			if (!rPath.empty())
+				fPath.insert(fPath.end(), std::next(rPath.rbegin()), rPath.rend());
 			return fPath;
 		}
 
-- 
2.43.0


From 2b2f204cca056616ab5d64f00528ba81f69e70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:05 +0000
Subject: [PATCH 26/34] fix: the invalid cell is not used as the position of an
 obstacle or Voronoi edge

---
 planner/src/algo/smoother.cpp       | 4 ++--
 planner/src/state_validator/gvd.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..22118bc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,7 +107,7 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (path[i].position - curr);
 
-				if (m_map->IsInsideMap(curr)) {
+				if (m_map->IsInsideMap(curr) && m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)).IsValid()) {
 					// Collision term
 					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
 					float obstDist = dirToClosestObs.norm();
@@ -117,7 +117,7 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
+					if (obstDist < dMax && m_param.voronoiWeight > 0.0f && m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)).IsValid()) {
 						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
 						float voroDist = dirToClosestVoroEdge.norm();
 
diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..6506aa6 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -305,6 +305,8 @@ namespace Planner {
 		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
+		if (!GetNearestObstacleCell(cell).IsValid())
+			return false;
 		obstacle = m_occupancyMap->GridCellToWorldPosition(GetNearestObstacleCell(cell));
 		return true;
 	}
@@ -314,6 +316,8 @@ namespace Planner {
 		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
+		if (!GetNearestVoronoiEdgeCell(cell).IsValid())
+			return false;
 		voronoi = m_occupancyMap->GridCellToWorldPosition(GetNearestVoronoiEdgeCell(cell));
 		return true;
 	}
-- 
2.43.0


From 3692ecd617af81f1d10fb5830ac50eba3e31fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 27/34] fix: NonHolonomicHeuristic owns its table and cannot be
 copied

The implicit copy shared the table and freed it twice.
---
 planner/src/algo/heuristics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/algo/heuristics.h b/planner/src/algo/heuristics.h
index 3157e3b..c2cbab8 100644
--- a/planner/src/algo/heuristics.h
+++ b/planner/src/algo/heuristics.h
@@ -8,6 +8,8 @@
 namespace Planner {
 	class NonHolonomicHeuristic : public AStarConcreteHeuristic<Pose2d> {
 	public:
+		NonHolonomicHeuristic(const NonHolonomicHeuristic&) = delete;
+		NonHolonomicHeuristic& operator=(const NonHolonomicHeuristic&) = delete;
 		~NonHolonomicHeuristic();
 
 		/// @brief Generate the NonHolonomicHeuristic heuristic.
-- 
2.43.0


From de56b8f26488099f570ae0569fc338b80d27da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 28/34] fix: Python name of OccupancyMap.is_occupied

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..12ccebf 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From 999847361b041e6f5b3f206040f827c14aab3971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 29/34] fix: Python validators are asked to validate paths, not
 states, for IsPathValid

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 12ccebf..d119a63 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From a50b2470a6af2996324816194c289a7869eadcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:24 +0000
Subject: [PATCH 30/34] fix: path validation measures the distance to the
 border of a moved map in its own frame

---
 .../state_validator/state_validator_occupancy_map.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 1356593..875e66a 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -52,11 +52,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			const Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 28984fa0e64ccc5628e69064a35b43fa6c6cb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:47 +0000
Subject: [PATCH 31/34] fix: non-holonomic heuristic tabulated the cost of
 driving from the goal instead of to it

---
 planner/src/algo/heuristics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 0d1fa2c..a2e9c9e 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -60,12 +60,13 @@ namespace Planner {
 		const unsigned int& numSpatialY = heuristic->numSpatialY;
 		const unsigned int& numAngular = heuristic->numAngular;
 
-		const Pose2d goal(0.0, 0.0, 0.0);
+		// The table is indexed by the pose of the goal relative to the state
+		const Pose2d state(0.0, 0.0, 0.0);
 		for (int i = 0; i < numSpatialX; i++) {
 			for (int j = 0; j < numSpatialY; j++) {
 				for (int k = 0; k < numAngular; k++) {
-					Pose2d pose(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
-					auto path = ReedsShepp::Solver::GetOptimalPath(pose, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
+					Pose2d goal(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
+					auto path = ReedsShepp::Solver::GetOptimalPath(state, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 					values[i][j][k] = path.ComputeCost(minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 				}
 			}
-- 
2.43.0


From c3217e8d872fda80ffcd2fddad232e40dc54aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:35 +0000
Subject: [PATCH 32/34] fix: shortest Reeds-Shepp distance is scaled by the
 turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index c727f73..52632ee 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From 838e8220630f4f009f3dfe88f8ef4ba74165a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:06 +0000
Subject: [PATCH 33/34] fix: Hybrid A* heading bins are not wrapped like an
 angle and bins around zero are as wide as the others

---
 planner/src/algo/hybrid_a_star.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..b2c5082 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -103,11 +103,12 @@ namespace Planner {
 			/// @brief Discretize a state.
 			inline Pose2i DiscretizePose(const Pose2d& pose) const
 			{
-				return {
-					static_cast<int>(pose.x() / m_param.spatialResolution),
-					static_cast<int>(pose.y() / m_param.spatialResolution),
-					static_cast<int>(pose.WrapTheta() / m_param.angularResolution),
-				};
+				Pose2i bin;
+				bin.x() = static_cast<int>(std::floor(pose.x() / m_param.spatialResolution));
+				bin.y() = static_cast<int>(std::floor(pose.y() / m_param.spatialResolution));
+				// The index of the heading bin is not an angle and must not be wrapped as one
+				bin.theta = static_cast<int>(std::floor(pose.WrapTheta() / m_param.angularResolution));
+				return bin;
 			}
 
 			/// @brief Create an augmented state from a path.
-- 
2.43.0


From 8e2a1e6a6f2f97da7cd9ee95f224074e372df730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:04 +0000
Subject: [PATCH 34/34] fix: compare Hybrid A* headings modulo a full turn when
 testing identical poses

---
 planner/src/algo/hybrid_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index b2c5082..03de989 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -208,7 +208,9 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				// Compare the headings modulo a full turn
+				double deltaTheta = Pose2d(0.0, 0.0, lhs.theta - rhs.theta).theta;
+				return (lhs.position - rhs.position).norm() < tol && std::abs(deltaTheta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0

