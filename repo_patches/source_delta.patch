From 53f8caa48bcf5844a93fd6c494c907754dca4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 01/45] fix: give a timepoint to steps that change nothing

Otherwise the next step's annotation was lost: running step by step
got stuck and going back before that step did nothing.
---
 src/app/openemsh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..323c1d0 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -160,8 +160,14 @@ expected<void, string> OpenEMSH::write() const {
 void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
-			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
+			auto& c = Caretaker::singleton();
+			auto const* const t = c.get_current_timepoint();
+			c.annotate_current_timepoint(make_unique<Annotation>(step));
 			func();
+			// Even a step that changes nothing needs its own timepoint, so that the
+			// next one can be annotated.
+			if(c.get_current_timepoint() == t)
+				c.make_next_timepoint();
 		}
 	};
 
-- 
2.43.0


From 32d591abd25c411ecd7e85e03d8b621ba3ba1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 02/45] fix: do not leave originators a pending go to freed
 timepoints on reset

---
 src/utils/state_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 42208e4..1bf93e1 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -32,8 +32,8 @@ void Caretaker::reset() noexcept {
 	pinned_timepoints.clear();
 	user_history.erase(next(begin(user_history)), end(user_history));
 	user_history_browser.reset();
+	garbage_collector(); // Originators that would outlive must resolve their pending go first.
 	originators.clear();
-	garbage_collector();
 }
 
 //******************************************************************************
-- 
2.43.0


From 3603b574bf067e42d8dd6f894207ee99315c5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 03/45] fix: forget annotations on reset, including the root's
 one

---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 1bf93e1..66d8735 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -34,6 +34,7 @@ void Caretaker::reset() noexcept {
 	user_history_browser.reset();
 	garbage_collector(); // Originators that would outlive must resolve their pending go first.
 	originators.clear();
+	annotations.clear();
 }
 
 //******************************************************************************
-- 
2.43.0


From 008c434c3362c89546895f06d9801ae93e5013b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 04/45] fix: let the Caretaker restore fixed meshline policies

Their creation timepoint was passed as is_enabled, so they had none, were
never taken care of, and kept their later states when going back.
---
 src/domain/board.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..19ec22c 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -94,6 +94,7 @@ void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coor
 					MeshlinePolicy::Policy::ONELINE,
 					MeshlinePolicy::Normal::NONE,
 					coord,
+					true,
 					t);
 	});
 }
@@ -611,9 +612,8 @@ void Board::add_fixed_meshline_policies(Axis axis) {
 		fixed_meshline_policy_creators[axis].size(),
 		"["s + to_string(axis) + "] Adding fixed Meshline Policies ");
 
-	auto* t = next_timepoint();
 	for(auto const& create_meshline_policy : fixed_meshline_policy_creators[axis]) {
-		create_meshline_policy(this, t);
+		create_meshline_policy(this, next_timepoint());
 		bar.tick(++i);
 	}
 	bar.complete();
-- 
2.43.0


From cc9953f1ca9c25faa066d8c6c7f8931b01dcca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 05/45] fix: let the Caretaker restore the Board, Angles and
 diagonal zones

Going back before their detection then running again duplicated Angles and
zones, and solved Angles were not restored.
---
 src/domain/board.cpp            | 10 +++++++---
 src/domain/conflict_manager.cpp |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 19ec22c..0a369e1 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
@@ -268,7 +270,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(
+					state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t)));
 			}
 			p = i;
 		}
@@ -297,7 +300,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(
+								state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t)));
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From f77a39e5c0f5adcc6d9b7e0589b1be64a02c28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 06/45] fix: link Intervals with every diagonal zone they are
 in

Zones shared a timepoint, so an Interval only kept the first one.
---
 src/domain/meshline_policy_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..d341fe5 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -162,13 +162,14 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 
 //******************************************************************************
 void MeshlinePolicyManager::detect_intervals_per_diagonal_zones(Axis const axis) {
-	auto [t, state] = make_next_state();
+	auto const& state = get_current_state();
 
 	auto [bar, found, i] = Progress::Bar::build(
 		conflict_manager->get_diagonal_or_circular_zones(axis).size() * state.intervals[axis].size(),
 		"["s + to_string(axis) + "] Detecting Intervals per diagonal zones");
 
 	for(auto& conflict : conflict_manager->get_diagonal_or_circular_zones(axis)) {
+		auto* const t = next_timepoint(); // An Interval can be in several zones.
 		Bounding1D const bounding = conflict->bounding();
 		vector<Interval*> intervals;
 		for(auto const& interval : state.intervals[axis]) {
-- 
2.43.0


From 37c012501efcbc6e78680c8d7888f699c1f5734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/45] fix: keep the orientation of falling diagonals in
 overlap and merge

Overlapping or merging two of them gave the other diagonal of their
bounding box.
---
 src/domain/geometrics/segment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index 534e0d2..f7f9e6f 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -24,6 +24,12 @@ static bool are_parallel(Segment const& a, Segment const& b) noexcept {
 		|| (a_vec.y / a_vec.x == b_vec.y / b_vec.x);
 }
 
+//******************************************************************************
+static bool is_falling(Segment const& a) noexcept {
+	return a.axis == Segment::Axis::DIAGONAL
+	    && (a.p0().x < a.p1().x) != (a.p0().y < a.p1().y);
+}
+
 //******************************************************************************
 Segment::Segment(Axis const axis) noexcept
 : axis(axis)
@@ -163,7 +169,9 @@ optional<Range> merge(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = a_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return is_falling(a)
+		     ? Range(Point(xmin, ymax), Point(xmax, ymin))
+		     : Range(Point(xmin, ymin), Point(xmax, ymax));
 	}
 	return nullopt;
 }
@@ -210,7 +218,9 @@ optional<Range> overlap(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = b_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return is_falling(a)
+		     ? Range(Point(xmin, ymax), Point(xmax, ymin))
+		     : Range(Point(xmin, ymin), Point(xmax, ymax));
 	}
 	return nullopt;
 }
-- 
2.43.0


From a4033c35c37caf9c07f296728416d3038a267085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 08/45] fix: let coincident outlines be meshed and merge
 overlaps in any order

Two polygons sharing a whole edge with the same normal both dismissed it, so
two identical polygons were not meshed at all. An edge covered by ranges that
were not found in order was not dismissed.
---
 .../conflicts/conflict_edge_in_polygon.cpp    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..9612631 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -81,22 +81,29 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
-
-	for(Overlap const& overlap : state.overlaps) {
-		if(!get<EDGE>(overlap).has_value()
-		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
-			else
-				break;
-		} else {
-			break;
+
+	// Overlap ranges are not all oriented like the edge, so might not be in order.
+	optional<Range> merged_range;
+	for(bool has_grown = true; has_grown;) {
+		has_grown = false;
+		for(Overlap const& overlap : state.overlaps) {
+			// An other outline at the very same place does not hide this one.
+			if(get<EDGE>(overlap).has_value()
+			&& get<EDGE>(overlap).value()->normal == edge->normal)
+				continue;
+
+			optional<Range> r = merged_range
+			                  ? merge(get<RANGE>(overlap), merged_range.value())
+			                  : get<RANGE>(overlap);
+			if(r && !(merged_range && r.value() == merged_range.value())) {
+				merged_range.emplace(r.value());
+				has_grown = true;
+			}
 		}
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From d13db9616dcbfdc8e0b9f9470a1a72c82b98cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 09/45] fix: report output files that cannot be written

---
 src/app/openemsh.cpp                        | 4 +++-
 src/infra/serializers/serializer_to_csx.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 323c1d0..5183b06 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -145,7 +145,9 @@ expected<void, string> OpenEMSH::write() const {
 	case Params::OutputFormat::PLANTUML: {
 //		SerializerToPlantuml::run(*board, static_cast<SerializerToPlantuml::Params const&>(params));
 		ofstream out(params.output);
-		out << SerializerToPlantuml::run(*board);
+		out << SerializerToPlantuml::run(*board) << flush;
+		if(!out)
+			return unexpected("Unable to write file");
 	} break;
 	case Params::OutputFormat::PRETTYPRINT:
 		cerr << SerializerToPrettyprint::run(*board);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..53c9667 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -127,5 +127,6 @@ void SerializerToCsx::visit(Board& board) {
 		doc.remove_child("OpenEMSH");
 	}
 
-	doc.save_file(output.native().c_str(), "  ");
+	if(!doc.save_file(output.native().c_str(), "  "))
+		error = "Unable to write file";
 }
-- 
2.43.0


From 25f1c17c7d2cf5e2451ef868be4893ed6854e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 10/45] fix: write meshlines with their full precision

Positions were rounded to 6 decimals, which moves lines off the structure
they were placed for, or even stacks them, in files using a large unit.
---
 src/infra/serializers/serializer_to_csx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 53c9667..fbe627d 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <format>
+
 #include <pugixml.hpp>
 
 #include "domain/mesh/meshline.hpp"
@@ -96,10 +98,10 @@ void SerializerToCsx::visit(Board& board) {
 		string out;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From 215ad19af42242b8ccd962c209587e38bbe98ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 11/45] fix: do not overwrite files with PlantUML output
 without --force

The output path defaults to the input one, so exporting to PlantUML replaced
the simulation file.
---
 src/app/openemsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 5183b06..2f5fff7 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -129,7 +129,7 @@ expected<void, string> OpenEMSH::parse() {
 //******************************************************************************
 bool OpenEMSH::is_about_overwriting() const {
 	return !params.force
-	&& params.output_format == Params::OutputFormat::CSX
+	&& params.output_format != Params::OutputFormat::PRETTYPRINT
 	&& (filesystem::exists(params.output)
 		|| (params.input == params.output
 		&& board
-- 
2.43.0


From b43745cbaa804b6e95758320688adea3e6d75bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 12/45] fix: ignore Polygons, LinPolys and Curves that have no
 vertex

---
 src/infra/parsers/parser_from_csx.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..6ca19bb 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -354,6 +354,9 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
@@ -435,6 +438,9 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
@@ -563,6 +569,9 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 			vertex.attribute("Z").as_double());
 	}
 
+	if(vertices.empty())
+		return;
+
 	// TODO support onepoint polygon and open polygons (not to double points, edges & angles)
 	if(params.with_yz) {
 		// TODO Z placement here is the bounding box
-- 
2.43.0


From df1a02128fc1bba54c85bd42445cfd2d8e501704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 13/45] fix: place Curves on their whole normal extent

ranges::max with a greater-than comparator gives the minimum.
---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 6ca19bb..5cb66f6 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -577,7 +577,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -595,7 +595,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -613,7 +613,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From c88f241af3e2ad109a06d57dfe1e10f65b71d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 14/45] fix: do not process Polygons and LinPolys on disabled
 planes

---
 src/infra/parsers/parser_from_csx.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 5cb66f6..5887d6d 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -53,6 +53,16 @@ constexpr optional<Plane> to_plane(size_t const normdir) {
 	}
 }
 
+//******************************************************************************
+static bool is_plane_enabled(Plane const plane, ParserFromCsx::Params const& params) {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 expected<double, string> str_to_double(string_view const& str) {
 	double res;
@@ -359,7 +369,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(is_plane_enabled(plane.value(), params))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -443,7 +454,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(is_plane_enabled(plane.value(), params))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From 8c758a232fdc7f5ca87cef9b321e888cc38fbfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 15/45] fix: use the whole diameter of Cylinders on their side
 planes

Side views were one radius wide and had no extent along the plane's normal,
while the circular view and Spheres span two radii.
---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 5887d6d..8c03623 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -500,45 +500,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From b23449356e7c7b43360267f1e2190108c470384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 16/45] fix: allow a fractional DeltaUnit for fixed meshlines

It was read as an integer, which moved every line to 0.
---
 src/infra/parsers/parser_from_csx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8c03623..4e43586 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -141,7 +141,7 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("lmin"); a) domain_params.lmin = a.as_uint();
 
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
-	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
+	double delta_unit = fixed_meshlines.attribute("DeltaUnit").as_double(1);
 	AxisSpace<string_view> lines = {
 		fixed_meshlines.child_value("XLines"),
 		fixed_meshlines.child_value("YLines"),
@@ -162,7 +162,7 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 //******************************************************************************
 expected<void, string> ParserFromCsx::Pimpl::parse_grid(pugi::xml_node const& node) {
 	std::size_t coord_system = node.attribute("CoordSystem").as_uint();
-	std::size_t delta_unit = node.attribute("DeltaUnit").as_uint(1);
+	double delta_unit = node.attribute("DeltaUnit").as_double(1);
 
 	if(coord_system == 0) {
 		// First step : into bool has_grid_already
-- 
2.43.0


From f4501580ff9ff9523d43ba8ab645fe3faad82886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 17/45] fix: reject meshline values that are not finite
 numbers, allow blanks

Garbage after a number was ignored and "inf" made the mesher never end.
---
 src/infra/parsers/parser_from_csx.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 4e43586..b1b72a8 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -5,6 +5,7 @@
 ///*****************************************************************************
 
 #include <charconv>
+#include <cmath>
 #include <format>
 #include <limits>
 #include <map>
@@ -64,13 +65,19 @@ static bool is_plane_enabled(Plane const plane, ParserFromCsx::Params const& par
 }
 
 //******************************************************************************
-expected<double, string> str_to_double(string_view const& str) {
+expected<double, string> str_to_double(string_view str) {
+	constexpr string_view blanks(" \t\r\n");
+	str.remove_prefix(min(str.find_first_not_of(blanks), str.size()));
+	str.remove_suffix(str.size() - (str.find_last_not_of(blanks) + 1));
+
 	double res;
-	auto [_, e] = std::from_chars(str.data(), str.data() + str.size(), res);
-	if(e == std::errc {})
-		return res;
-	else
+	auto [end, e] = std::from_chars(str.data(), str.data() + str.size(), res);
+	if(e != std::errc {})
 		return unexpected(make_error_code(e).message());
+	else if(end != str.data() + str.size() || !isfinite(res))
+		return unexpected(make_error_code(errc::invalid_argument).message());
+	else
+		return res;
 }
 
 //******************************************************************************
-- 
2.43.0


From be0dbe271ace6fdfa6e88abe72cfea8dc74a4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 18/45] fix: avoid undefined behavior on polygons whose area is
 not a number

---
 src/domain/geometrics/polygon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/polygon.cpp b/src/domain/geometrics/polygon.cpp
index 93d29ab..7c5ae46 100644
--- a/src/domain/geometrics/polygon.cpp
+++ b/src/domain/geometrics/polygon.cpp
@@ -84,8 +84,8 @@ Polygon::Rotation detect_rotation(T const& points) noexcept {
 		return Polygon::Rotation::CCW;
 	else if(area < 0)
 		return Polygon::Rotation::CW;
-	else
-		::unreachable();
+	else // Not a number.
+		return Polygon::Rotation::COLINEAR;
 }
 
 //******************************************************************************
-- 
2.43.0


From 37e89931f6aea44dbaecc3c69fdaeda55d695ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 19/45] fix: reject global parameters the mesher would never
 end with

---
 src/infra/parsers/parser_from_csx.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index b1b72a8..560e4b7 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -80,6 +80,20 @@ expected<double, string> str_to_double(string_view str) {
 		return res;
 }
 
+/// Values that the mesher could not converge with.
+///*****************************************************************************
+static expected<void, string> check_params(domain::Params const& params) {
+	if(!isfinite(params.proximity_limit))
+		return unexpected(format("Invalid proximity limit {}", params.proximity_limit));
+	if(!isfinite(params.smoothness) || params.smoothness < 1)
+		return unexpected(format("Invalid smoothness {}", params.smoothness));
+	if(!isfinite(params.dmax) || params.dmax <= 0)
+		return unexpected(format("Invalid dmax {}", params.dmax));
+	if(!isfinite(params.diagonal_dmax) || params.diagonal_dmax <= 0)
+		return unexpected(format("Invalid diagonal dmax {}", params.diagonal_dmax));
+	return {};
+}
+
 //******************************************************************************
 size_t parse_priority(pugi::xml_node const& node, shared_ptr<Material> const& material) {
 	return (material && material->type == Material::Type::PORT)
@@ -665,6 +679,7 @@ expected<shared_ptr<Board>, string> ParserFromCsx::run(std::filesystem::path con
 	ParserFromCsx parser(input, std::move(params));
 	TRY(parser.parse());
 	override_domain_params(parser.domain_params);
+	TRY(check_params(parser.domain_params));
 	for(auto const& [axis, coord] : parser.domain_params.input_fixed_meshlines)
 		parser.pimpl->board.add_fixed_meshline_policy(axis, coord);
 	parser.domain_params.input_fixed_meshlines.clear();
-- 
2.43.0


From f88a6d24a949dbed230a28709fe20b8ee70c51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 20/45] fix: do not lose intersections at the very end of
 segments

---
 src/domain/geometrics/segment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index f7f9e6f..6096f7f 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -4,6 +4,7 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include "domain/global.hpp"
 #include "utils/unreachable.hpp"
 #include "point.hpp"
 #include "polygon.hpp"
@@ -127,7 +128,7 @@ optional<Point> intersection(Segment const& a, Segment const& b) {
 			       - a_vec.y * a.p0().x
 			       + a_vec.y * b.p0().x)
 			       / div;
-			if(m >= 0 && m <= 1) // When we are not sure edges are crossing.
+			if(m > -equality_tolerance && m < 1 + equality_tolerance) // When we are not sure edges are crossing.
 				return Point(b.p0() + m * b_vec);
 		}
 	}
-- 
2.43.0


From 8748f8d217919904b8ccc65080fecf5e6b0f3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 21/45] fix: do not put two lines in the middle of intervals

---
 src/domain/mesh/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 70db3ab..86bdc6c 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,7 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s) {
+	while(current_s < s.value() - equality_tolerance) {
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0


From b3746ceb7d860c81d24e76007b6dc17924858d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 22/45] fix: solve intervals until the policies they share are
 settled

---
 src/domain/meshline_policy_manager.cpp | 28 +++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d341fe5..29a4f11 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -5,6 +5,8 @@
 ///*****************************************************************************
 
 #include <algorithm>
+#include <array>
+#include <cmath>
 #include <limits>
 
 #include "domain/geometrics/normal.hpp"
@@ -203,14 +205,34 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 			return a->h < b->h;
 		});
 
-	for(auto interval : dimension_view)
-		interval->auto_solve_d();
+	// A MeshlinePolicy is shared between Intervals, so each one can invalidate
+	// what was solved from its neighbors.
+	auto const solve = [&] {
+		bool is_stable = true;
+		for(auto* interval : dimension_view) {
+			auto const values = [&] {
+				auto const& s = interval->get_current_state();
+				return array {
+					s.dmax,
+					s.before.meshline_policy->get_current_state().d,
+					s.after.meshline_policy->get_current_state().d
+				};
+			};
+			auto const previous = values();
+			interval->auto_solve_d();
+			is_stable &= ranges::equal(previous, values(), [](double a, double b) {
+				return abs(a - b) <= equality_tolerance * max(1.0, abs(a));
+			});
+		}
+		return is_stable;
+	};
+
+	while(!solve());
 
 	size_t new_size = state.meshlines[axis].size();
 	vector<vector<shared_ptr<Meshline>>> interval_meshlines;
 
 	for(auto* interval : dimension_view) {
-		interval->auto_solve_d();
 		interval->auto_solve_smoothness();
 		interval_meshlines.emplace_back(interval->mesh());
 
-- 
2.43.0


From 9589b62730b2027478ad1cdae2178a55c55970a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:00 +0000
Subject: [PATCH 23/45] fix: always put a line in intervals, however small

---
 src/domain/mesh/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 86bdc6c..fc9dfdf 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,7 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s.value() - equality_tolerance) {
+	while(ls.empty() ? current_s < s : current_s < s.value() - equality_tolerance) {
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0


From 8234e7865c3762cc672c177fd86f3461b9ab8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 24/45] fix: merge policies that are at the same place whatever
 the proximity limit

---
 src/domain/meshline_policy_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 29a4f11..18beb0d 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -98,7 +98,7 @@ optional<array<MeshlinePolicy*, 2>> detect_closest_meshline_policies(
 		}
 	}
 
-	if(smallest_space <= proximity_limit)
+	if(smallest_space <= proximity_limit || smallest_space == 0)
 		return closest;
 	else
 		return nullopt;
-- 
2.43.0


From a672b2cc5d7918ef092f87c58575484c353e76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:04 +0000
Subject: [PATCH 25/45] fix: detect angles where diagonal edges cross
 horizontal and vertical ones

---
 src/domain/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 0a369e1..d43afe7 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -293,7 +293,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 					&& edge_b->axis != Segment::Axis::DIAGONAL)
 						continue;
 
-					if(!does_overlap_strict(bounding(*edge_a), bounding(*edge_b)))
+					if(!does_overlap(bounding(*edge_a), bounding(*edge_b)))
 						continue;
 
 					relation::SegmentSegment rel = edge_a->relation_to(*edge_b);
-- 
2.43.0


From 4976af740cc74ee42784d2b4e801a4c5e7363b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 26/45] fix: do not skip a step nor forget an edit when gone
 back to it

---
 src/app/openemsh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 2f5fff7..0074391 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -217,6 +217,11 @@ void OpenEMSH::run_all_steps() const {
 //******************************************************************************
 void OpenEMSH::run_next_step() const {
 	auto& c = Caretaker::singleton();
+	// When gone back, the current timepoint is the one before an already known step.
+	if(auto const* a = c.get_annotation(c.get_current_timepoint()); a) {
+		run({ static_cast<Annotation const*>(a)->before_step });
+		return;
+	}
 	auto* t = c.find_first_ancestor_with_annotation();
 	if(auto const* a = c.get_annotation(t); a) {
 		if(optional<Step> step = next(static_cast<Annotation const*>(a)->before_step)
@@ -239,7 +244,8 @@ void OpenEMSH::go_before(Step step) const {
 		c.find_first_ancestor_with_annotation_that(
 			[&step](IAnnotation const* annotation) {
 				return static_cast<Annotation const*>(annotation)->before_step == step;
-			}));
+			},
+			true));
 }
 
 //******************************************************************************
@@ -251,6 +257,8 @@ void OpenEMSH::go_before_previous_step() const {
 //******************************************************************************
 bool OpenEMSH::can_run_a_next_step() const {
 	auto& c = Caretaker::singleton();
+	if(c.get_annotation(c.get_current_timepoint()))
+		return true;
 	auto* t = c.find_first_ancestor_with_annotation();
 	if(auto const* a = c.get_annotation(t); a)
 		return next(static_cast<Annotation const*>(a)->before_step).has_value();
-- 
2.43.0


From 764016377808e140bc3f77be5aaf1ec17021f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 27/45] fix: do not mesh forever when two policies at the same
 place are enabled

---
 src/domain/meshline_policy_manager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 18beb0d..c89cbe2 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -150,6 +150,13 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 			return a->coord < b->coord;
 		});
 
+	// Two policies at the same place can be enabled by hand.
+	auto const duplicates = ranges::unique(dimension,
+		[](MeshlinePolicy const* a, MeshlinePolicy const* b) {
+			return a->coord == b->coord;
+		});
+	dimension.erase(begin(duplicates), end(duplicates));
+
 	for(size_t i = 1; i < dimension.size(); ++i) {
 		auto const& interval = state.intervals[axis].emplace_back(make_shared<Interval>(
 			dimension[i-1], dimension[i], axis, global_params, t));
@@ -260,6 +267,12 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 			return *a < *b;
 		});
 
+	auto const duplicates = ranges::unique(state.meshlines[axis],
+		[](auto const& a, auto const& b) {
+			return a->coord == b->coord;
+		});
+	state.meshlines[axis].erase(begin(duplicates), end(duplicates));
+
 	set_state(t, state);
 	bar.complete();
 }
-- 
2.43.0


From 851b603d01e6e126bac484393b2e78b60ccd678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 28/45] fix: show colinear edges conflicts at their place
 whatever the plane of their edges

---
 .../structure_conflict_colinear_edges.cpp        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
index fda9918..7df5932 100644
--- a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
+++ b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
@@ -9,6 +9,7 @@
 
 #include "domain/conflicts/conflict_colinear_edges.hpp"
 #include "domain/geometrics/edge.hpp"
+#include "domain/geometrics/point.hpp"
 #include "utils/default_locator.hpp"
 #include "utils/unreachable.hpp"
 #include "ui/qt/data_keys.hpp"
@@ -22,15 +23,22 @@ static QLineF convert(domain::ViewAxis axis, domain::ConflictColinearEdges const
 	qreal side = qMax(scene_rect.width(), scene_rect.height());
 	scene_rect += QMarginsF(side, side, side, side) * 2;
 
+	// Edges may belong to another plane than the displayed one.
+	auto const* edge = conflict->get_current_state().edges[0];
+	auto const edge_axis = domain::transpose(edge->plane, conflict->axis);
+	if(!edge_axis)
+		unreachable();
+	qreal const coord = domain::coord(edge->p0(), edge_axis.value()).value();
+
 	switch(axis) {
 	case domain::ViewAxis::H:
 		return QLineF(
-			scene_rect.left(), conflict->get_current_state().edges[0]->p0().y.value(),
-			scene_rect.right(), conflict->get_current_state().edges[0]->p0().y.value());
+			scene_rect.left(), coord,
+			scene_rect.right(), coord);
 	case domain::ViewAxis::V:
 		return QLineF(
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.bottom(),
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.top());
+			coord, scene_rect.bottom(),
+			coord, scene_rect.top());
 	default:
 		unreachable();
 	}
-- 
2.43.0


From 0c99d2750cdf03787327e78a135b9243510f1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 29/45] fix: do not report progress beyond the last fixed
 meshline policy

---
 src/domain/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index d43afe7..facfb14 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -618,7 +618,7 @@ void Board::add_fixed_meshline_policies(Axis axis) {
 
 	for(auto const& create_meshline_policy : fixed_meshline_policy_creators[axis]) {
 		create_meshline_policy(this, next_timepoint());
-		bar.tick(++i);
+		bar.tick(i++);
 	}
 	bar.complete();
 }
-- 
2.43.0


From 2e2b38e5ce17112e3c044c1e4ab87353f5d5ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:36 +0000
Subject: [PATCH 30/45] fix: write the grid in the structure that was read

---
 src/infra/serializers/serializer_to_csx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index fbe627d..d5d531a 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -85,7 +85,8 @@ void SerializerToCsx::visit(Board& board) {
 	}
 
 	pugi::xml_node csx;
-	if(doc.select_node("/ContinuousStructure")) {
+	if(!doc.select_node("/openEMS/ContinuousStructure")
+	&& doc.select_node("/ContinuousStructure")) {
 		csx = find_or_append_child(doc, "ContinuousStructure");
 	} else {
 		pugi::xml_node oems = find_or_append_child(doc, "openEMS");
-- 
2.43.0


From c578202023cbe9628831712f9689fbe153650856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 31/45] fix: keep parameters that global parameters dialog does
 not edit

---
 src/ui/qt/edit/edit_model_global.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 52fa7f7..2ff1993 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -44,7 +44,7 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 
 //******************************************************************************
 void EditModelGlobal::commit() {
-	domain::Params params;
+	auto params = global->get_current_state();
 
 	std::array does_succeed = {
 		try_to_double(item(0, V)->text(), params.proximity_limit),
-- 
2.43.0


From 1acd119d2957a7509b3cfa97d9f702a190a18757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 32/45] fix: do not truncate values in edition dialogs

---
 src/ui/qt/edit/edit_model.cpp                          |  8 ++++++++
 src/ui/qt/edit/edit_model.hpp                          |  1 +
 .../edit_model_conflict_diagonal_or_circular_zone.cpp  |  4 ++--
 src/ui/qt/edit/edit_model_global.cpp                   | 10 +++++-----
 src/ui/qt/edit/edit_model_interval.cpp                 |  6 +++---
 src/ui/qt/edit/edit_model_meshline_policy.cpp          |  2 +-
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ui/qt/edit/edit_model.cpp b/src/ui/qt/edit/edit_model.cpp
index 5363dfd..9dcbf26 100644
--- a/src/ui/qt/edit/edit_model.cpp
+++ b/src/ui/qt/edit/edit_model.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include "edit_model_angle.hpp"
 #include "edit_model_conflict_diagonal_or_circular_zone.hpp"
 #include "edit_model_conflict_too_close_meshline_policies.hpp"
@@ -23,6 +25,12 @@
 
 namespace ui::qt {
 
+/// Precise enough for an unedited value to remain the same once read back.
+///*****************************************************************************
+QString EditModel::to_qstring(double val) {
+	return QString::number(val, 'g', QLocale::FloatingPointShortest);
+}
+
 //******************************************************************************
 bool EditModel::try_to_double(QString const& in, double& out) {
 	bool does_succeed = false;
diff --git a/src/ui/qt/edit/edit_model.hpp b/src/ui/qt/edit/edit_model.hpp
index 20b298c..81c1735 100644
--- a/src/ui/qt/edit/edit_model.hpp
+++ b/src/ui/qt/edit/edit_model.hpp
@@ -35,6 +35,7 @@ protected:
 	void make_row(int row, QString const& property, T const& old_value, T const& new_value, QString const& tool_tip);
 	void make_row(int row, QString const& property, auto const& value, QString const& tool_tip);
 	static bool is_true(bool const val) { return val; }
+	static QString to_qstring(double val);
 	static bool try_to_double(QString const& in, double& out);
 	static bool try_to_ulong(QString const& in, std::size_t& out);
 	static bool try_to_bool(Qt::CheckState const in, bool& out);
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index d717f13..f26085a 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -24,9 +24,9 @@ EditModelConflictDiagonalOrCircularZone::EditModelConflictDiagonalOrCircularZone
 
 	make_row(0, "lmin", QString::number(state.lmin),
 		"Minimum line number per Interval half, at extremities of the diagonal zone.");
-	make_row(1, "dmax", QString::number(state.dmax),
+	make_row(1, "dmax", to_qstring(state.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(2, "Minimal angle", QString::number(state.minimal_angle),
+	make_row(2, "Minimal angle", to_qstring(state.minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
 }
 
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 2ff1993..05d2e50 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -26,17 +26,17 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 	auto const& params = global->get_current_state();
 	setRowCount(4);
 
-	make_row(0, "Proximity limit", QString::number(params.proximity_limit),
+	make_row(0, "Proximity limit", to_qstring(params.proximity_limit),
 		"Distance below which two MeshlinePolicies will be merged.");
-	make_row(1, "Smoothness", QString::number(params.smoothness),
+	make_row(1, "Smoothness", to_qstring(params.smoothness),
 		"Smoothness factor <b>]1;2]</b>. Meshing algorithm will decrease it, better to start high.");
 	make_row(2, "lmin", QString::number(params.lmin),
 		"Minimum line number per Interval half.");
-	make_row(3, "dmax", QString::number(params.dmax),
+	make_row(3, "dmax", to_qstring(params.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(4, "Minimal angle", QString::number(params.consecutive_diagonal_minimal_angle),
+	make_row(4, "Minimal angle", to_qstring(params.consecutive_diagonal_minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
-	make_row(5, "Diagonal dmax", QString::number(params.diagonal_dmax),
+	make_row(5, "Diagonal dmax", to_qstring(params.diagonal_dmax),
 		"Maximum distance between two adjacent lines in diagonal zones.");
 	make_row(6, "Diagonal lmin", QString::number(params.diagonal_lmin),
 		"Minimum line number per Interval half, at extremities of diagonal zones.");
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 3115f59..c97bde8 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -22,18 +22,18 @@ EditModelInterval::EditModelInterval(domain::Interval* interval, QObject* parent
 	auto const& state = interval->get_current_state();
 	setRowCount(5);
 
-	make_row(0, "dmax", QString::number(state.dmax),
+	make_row(0, "dmax", to_qstring(state.dmax),
 		"Maximum distance between two adjacent lines.");
 	make_row(1, "Before.lmin", QString::number(state.before.lmin),
 		"Minimum line number in the minimal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(2, "Before.Smoothness", QString::number(state.before.smoothness), QString("2"),
+	make_row(2, "Before.Smoothness", to_qstring(state.before.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the minimal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 	make_row(3, "After.lmin", QString::number(state.after.lmin),
 		"Minimum line number in the maximal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(4, "After.Smoothness", QString::number(state.after.smoothness), QString("2"),
+	make_row(4, "After.Smoothness", to_qstring(state.after.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the maximal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 4edc10c..66303bf 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -39,7 +39,7 @@ EditModelMeshlinePolicy::EditModelMeshlinePolicy(domain::MeshlinePolicy* meshlin
 		"Direction associated with Policy.");
 	make_row(2, "Enabled", state.is_enabled,
 		"Take into account in the meshing process.");
-	make_row(3, "d", QString::number(state.d),
+	make_row(3, "d", to_qstring(state.d),
 		"Desired distance between policy lines (HALFS|THIRDS) or "
 		"between policy line and adjacent lines (ONELINE).<br/>"
 		"Can be decreased by the meshing algorithm.");
-- 
2.43.0


From 880054b949951d4fdd3c81b74f497e07a76b5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:55 +0000
Subject: [PATCH 33/45] fix: edit the state that is gone back to rather than
 the final one

---
 src/ui/qt/edit/edit_model_angle.cpp                       | 4 +++-
 .../edit_model_conflict_diagonal_or_circular_zone.cpp     | 6 +++++-
 src/ui/qt/edit/edit_model_edge.cpp                        | 5 ++++-
 src/ui/qt/edit/edit_model_interval.cpp                    | 8 +++++++-
 src/ui/qt/edit/edit_model_meshline_policy.cpp             | 7 ++++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_angle.cpp b/src/ui/qt/edit/edit_model_angle.cpp
index 92feb1a..94fb230 100644
--- a/src/ui/qt/edit/edit_model_angle.cpp
+++ b/src/ui/qt/edit/edit_model_angle.cpp
@@ -37,7 +37,9 @@ void EditModelAngle::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			angle->set_next_state(state);
+			auto next = angle->get_current_state();
+			next.to_mesh = state.to_mesh;
+			angle->set_next_state(next);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index f26085a..fcb4f89 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -44,7 +44,11 @@ void EditModelConflictDiagonalOrCircularZone::commit() {
 		emit edit_from((state.minimal_angle != conflict->get_current_state().minimal_angle
 		               ? app::Step::SOLVE_DIAG_ZONES_ANGLES
 		               : app::Step::SOLVE_DIAG_ZONES_INTERVALS), [&]() {
-			conflict->set_next_state(state);
+			auto next = conflict->get_current_state();
+			next.lmin = state.lmin;
+			next.dmax = state.dmax;
+			next.minimal_angle = state.minimal_angle;
+			conflict->set_next_state(next);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_edge.cpp b/src/ui/qt/edit/edit_model_edge.cpp
index bf29a63..e204c13 100644
--- a/src/ui/qt/edit/edit_model_edge.cpp
+++ b/src/ui/qt/edit/edit_model_edge.cpp
@@ -37,7 +37,10 @@ void EditModelEdge::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			edge->set_next_state(state);
+			auto next = edge->get_current_state();
+			next.to_mesh = state.to_mesh;
+			next.to_reverse = state.to_reverse;
+			edge->set_next_state(next);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index c97bde8..4785596 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -52,7 +52,13 @@ void EditModelInterval::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::MESH, [&] {
-			interval->set_next_state(state);
+			auto next = interval->get_current_state();
+			next.dmax = state.dmax;
+			next.before.lmin = state.before.lmin;
+			next.before.smoothness = state.before.smoothness;
+			next.after.lmin = state.after.lmin;
+			next.after.smoothness = state.after.smoothness;
+			interval->set_next_state(next);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 66303bf..d78f66a 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -81,7 +81,12 @@ void EditModelMeshlinePolicy::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_INTERVALS, [&]() {
-			meshline_policy->set_next_state(state);
+			auto next = meshline_policy->get_current_state();
+			next.policy = state.policy;
+			next.normal = state.normal;
+			next.is_enabled = state.is_enabled;
+			next.d = state.d;
+			meshline_policy->set_next_state(next);
 		});
 	}
 }
-- 
2.43.0


From d920a6cf163bdf64f94d01e49a7136ebf2f7618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 34/45] fix: do not skip steps when editing before the edited
 step is reached

---
 src/app/openemsh.cpp      | 38 ++++++++++++++++----------------------
 src/app/openemsh.hpp      |  1 +
 src/ui/qt/main_window.cpp |  3 +++
 3 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 0074391..d332ef1 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -216,20 +216,8 @@ void OpenEMSH::run_all_steps() const {
 
 //******************************************************************************
 void OpenEMSH::run_next_step() const {
-	auto& c = Caretaker::singleton();
-	// When gone back, the current timepoint is the one before an already known step.
-	if(auto const* a = c.get_annotation(c.get_current_timepoint()); a) {
-		run({ static_cast<Annotation const*>(a)->before_step });
-		return;
-	}
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a) {
-		if(optional<Step> step = next(static_cast<Annotation const*>(a)->before_step)
-		; step)
-			run({ step.value() });
-	} else {
-		run({ Step::ADJUST_EDGE_TO_MATERIAL });
-	}
+	if(auto const step = get_next_step(); step)
+		run({ step.value() });
 }
 
 //******************************************************************************
@@ -256,14 +244,7 @@ void OpenEMSH::go_before_previous_step() const {
 
 //******************************************************************************
 bool OpenEMSH::can_run_a_next_step() const {
-	auto& c = Caretaker::singleton();
-	if(c.get_annotation(c.get_current_timepoint()))
-		return true;
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a)
-		return next(static_cast<Annotation const*>(a)->before_step).has_value();
-	else
-		return true;
+	return get_next_step().has_value();
 }
 
 //******************************************************************************
@@ -281,6 +262,19 @@ optional<Step> OpenEMSH::get_current_step() const {
 		return nullopt;
 }
 
+//******************************************************************************
+optional<Step> OpenEMSH::get_next_step() const {
+	auto& c = Caretaker::singleton();
+	// When gone back, the current timepoint is the one before an already known step.
+	if(auto const* a = c.get_annotation(c.get_current_timepoint()); a)
+		return static_cast<Annotation const*>(a)->before_step;
+	auto* t = c.find_first_ancestor_with_annotation();
+	if(auto const* a = c.get_annotation(t); a)
+		return next(static_cast<Annotation const*>(a)->before_step);
+	else
+		return Step::ADJUST_EDGE_TO_MATERIAL;
+}
+
 //******************************************************************************
 Annotation::Annotation(Step before_step)
 : before_step(before_step)
diff --git a/src/app/openemsh.hpp b/src/app/openemsh.hpp
index a754ce2..b00b3db 100644
--- a/src/app/openemsh.hpp
+++ b/src/app/openemsh.hpp
@@ -68,6 +68,7 @@ public:
 	bool can_run_a_next_step() const;
 	bool can_go_before() const;
 	std::optional<Step> get_current_step() const;
+	std::optional<Step> get_next_step() const;
 private:
 	Params params;
 	std::shared_ptr<domain::Board> board;
diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 68fb4e0..f7ec147 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -648,6 +648,9 @@ void MainWindow::run() {
 
 //******************************************************************************
 void MainWindow::handle_edition_from(app::Step from, std::function<void ()> const& edit) {
+	// Steps in between must not be skipped when that one is not reached yet.
+	if(auto const step = oemsh.get_next_step(); step && step.value() < from)
+		from = step.value();
 	oemsh.go_before(from);
 	edit();
 	run(from);
-- 
2.43.0


From f3c7f257183219f208a572fb0f93e1b37762f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:34 +0000
Subject: [PATCH 35/45] fix: do not lose the document when saving it before
 closing fails

---
 src/ui/qt/main_window.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index f7ec147..fe1fb5d 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -756,6 +756,10 @@ void MainWindow::closeEvent(QCloseEvent* event) {
 			return;
 		} else if(res == Logger::UserAction::SAVE) {
 			on_a_file_save_triggered();
+			if(is_unsaved) {
+				event->ignore();
+				return;
+			}
 		}
 	}
 	event->accept();
-- 
2.43.0


From 1c5498ba5a91d565b539392966d56686e885aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:48 +0000
Subject: [PATCH 36/45] fix: do not ask to save a document that could not be
 opened

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index fe1fb5d..9c57ae9 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -135,6 +135,7 @@ bool MainWindow::parse_and_display() {
 	if(auto res = oemsh.parse()
 	; !res.has_value()) {
 		QGuiApplication::restoreOverrideCursor();
+		is_unsaved = false;
 		update_board_dependant_buttons_visibility(false);
 		log({
 			.level = Logger::Level::ERROR,
-- 
2.43.0


From 3e19756100d8462e1da80cfe8ff338148b361db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 37/45] fix: do not crash on fitting views while no document is
 opened

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 9c57ae9..08817a2 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -662,6 +662,7 @@ void MainWindow::update_board_dependant_buttons_visibility(bool are_enabled) {
 	ui->a_file_save->setEnabled(are_enabled);
 	ui->a_file_save_as->setEnabled(are_enabled);
 	ui->a_edit->setEnabled(are_enabled);
+	ui->a_fit->setEnabled(are_enabled);
 	ui->a_mesh_prev->setEnabled(are_enabled);
 	ui->a_mesh_next->setEnabled(are_enabled);
 	ui->a_undo->setEnabled(are_enabled);
-- 
2.43.0


From 89d0070efd0b8bac4b42f1d6a9749ed8a0608e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 38/45] fix: keep selection when displaying selected chain

---
 src/ui/qt/processing_view/processing_scene.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/qt/processing_view/processing_scene.cpp b/src/ui/qt/processing_view/processing_scene.cpp
index da1199b..87289e2 100644
--- a/src/ui/qt/processing_view/processing_scene.cpp
+++ b/src/ui/qt/processing_view/processing_scene.cpp
@@ -419,6 +419,9 @@ void ProcessingScene::display_structure_view() {
 
 //******************************************************************************
 void ProcessingScene::display_selected_chain() {
+	// Avoid infinite recursion by restoring the selection.
+	is_display_selected_chain_locked = true;
+
 	auto const selected = selected_nodes();
 	auto const highlighted = highlighted_nodes();
 	reset_visibility(false);
@@ -433,6 +436,8 @@ void ProcessingScene::display_selected_chain() {
 		if(node)
 			node->setSelected(true);
 
+	is_display_selected_chain_locked = false;
+
 	fit_containers();
 	fit_scene();
 }
@@ -446,10 +451,8 @@ void ProcessingScene::on_selectionChanged() {
 
 	if(display_mode == DisplayMode::SELECTED_CHAIN) {
 		if(!is_display_selected_chain_locked) {
-			is_display_selected_chain_locked = true;
 			display_selected_chain();
 			emit requires_fit();
-			is_display_selected_chain_locked = false;
 		}
 	}
 }
-- 
2.43.0


From 9834662ee98db7bccf0208cbce89a5ae2ff01a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 39/45] fix: keep processing view in sync with structure view
 when changing state

---
 src/ui/qt/processing_view/processing_scene.cpp | 5 +++++
 src/ui/qt/processing_view/processing_scene.hpp | 1 +
 src/ui/qt/processing_view/processing_view.cpp  | 8 ++++----
 src/ui/qt/processing_view/processing_view.hpp  | 1 -
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ui/qt/processing_view/processing_scene.cpp b/src/ui/qt/processing_view/processing_scene.cpp
index 87289e2..38c713d 100644
--- a/src/ui/qt/processing_view/processing_scene.cpp
+++ b/src/ui/qt/processing_view/processing_scene.cpp
@@ -360,6 +360,11 @@ void ProcessingScene::set_display_view_axes(domain::ViewAxisSpace<bool> const& a
 		display_structure_view();
 }
 
+//******************************************************************************
+domain::ViewAxisSpace<bool> const& ProcessingScene::get_display_view_axes() const {
+	return axes_displayed_on_structure_view;
+}
+
 //******************************************************************************
 void ProcessingScene::set_display_plane(domain::Plane plane) {
 	plane_displayed_on_structure_view = plane;
diff --git a/src/ui/qt/processing_view/processing_scene.hpp b/src/ui/qt/processing_view/processing_scene.hpp
index 8e3d1b2..c8c3eae 100644
--- a/src/ui/qt/processing_view/processing_scene.hpp
+++ b/src/ui/qt/processing_view/processing_scene.hpp
@@ -94,6 +94,7 @@ public:
 	DisplayMode get_display_mode() const;
 	void set_display_mode(DisplayMode mode);
 	void set_display_view_axes(domain::ViewAxisSpace<bool> const& axes);
+	domain::ViewAxisSpace<bool> const& get_display_view_axes() const;
 	void set_display_plane(domain::Plane plane);
 
 	void edit_selected_nodes(QPoint const& pos);
diff --git a/src/ui/qt/processing_view/processing_view.cpp b/src/ui/qt/processing_view/processing_view.cpp
index eb21e23..6719123 100644
--- a/src/ui/qt/processing_view/processing_view.cpp
+++ b/src/ui/qt/processing_view/processing_view.cpp
@@ -22,7 +22,6 @@ ProcessingView::ProcessingView(QWidget* parent)
 , current_timepoint(nullptr)
 , wire_style(nodegraph::Wire::Style::CURVED)
 , plane_displayed_on_structure_view(domain::XY)
-, axes_displayed_on_structure_view({ true, true })
 {
 	setRenderHints(QPainter::Antialiasing | QPainter::SmoothPixmapTransform);
 	setTransformationAnchor(QGraphicsView::AnchorUnderMouse);
@@ -83,7 +82,6 @@ void ProcessingView::set_display_mode(ProcessingScene::DisplayMode mode) {
 
 //******************************************************************************
 void ProcessingView::set_display_view_axes(domain::ViewAxisSpace<bool> const& axes) {
-	axes_displayed_on_structure_view = axes;
 	get_current_state().scene->set_display_view_axes(axes);
 }
 
@@ -118,9 +116,10 @@ void ProcessingView::make_current_state() {
 
 	populate(scene);
 	scene->init();
-	if(auto const* current_scene = static_cast<ProcessingScene*>(this->scene()); current_scene)
+	if(auto const* current_scene = static_cast<ProcessingScene*>(this->scene()); current_scene) {
 		scene->set_display_mode(current_scene->get_display_mode());
-	scene->set_display_view_axes(axes_displayed_on_structure_view);
+		scene->set_display_view_axes(current_scene->get_display_view_axes());
+	}
 	scene->set_display_plane(plane_displayed_on_structure_view);
 	scene->set_wire_style(wire_style);
 
@@ -134,6 +133,7 @@ void ProcessingView::go_to_current_state() {
 	if(current_timepoint != t) {
 		if(states.contains(t)) {
 			current_timepoint = t;
+			states.at(t).scene->set_display_plane(plane_displayed_on_structure_view);
 			setScene(states.at(t).scene);
 		} else {
 			make_current_state();
diff --git a/src/ui/qt/processing_view/processing_view.hpp b/src/ui/qt/processing_view/processing_view.hpp
index 7466a6d..7932782 100644
--- a/src/ui/qt/processing_view/processing_view.hpp
+++ b/src/ui/qt/processing_view/processing_view.hpp
@@ -55,7 +55,6 @@ private:
 
 	nodegraph::Wire::Style wire_style;
 	domain::Plane plane_displayed_on_structure_view;
-	domain::ViewAxisSpace<bool> axes_displayed_on_structure_view;
 
 	void populate(ProcessingScene* scene);
 };
-- 
2.43.0


From a142ea69bc7c588eda4ccb2396363cd41a5ce768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 40/45] fix: keep display buttons in sync with views when
 opening a document

---
 src/ui/qt/main_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 08817a2..5f58df4 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -153,6 +153,7 @@ bool MainWindow::parse_and_display() {
 	ui->structure_view->init(&oemsh.get_board());
 	ui->processing_view->init(&oemsh.get_board());
 	run();
+	update_show_buttons_pressing();
 	QGuiApplication::restoreOverrideCursor();
 	return true;
 }
-- 
2.43.0


From 4e98852f33df28e29e2053473ca585c7c8650703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:58 +0000
Subject: [PATCH 41/45] fix: only take an offered choice as an answer in the
 terminal

---
 src/ui/cli/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/cli/logger.cpp b/src/ui/cli/logger.cpp
index d4ba9db..95b69e7 100644
--- a/src/ui/cli/logger.cpp
+++ b/src/ui/cli/logger.cpp
@@ -102,7 +102,7 @@ Logger::UserAction LoggerSink::log(Logger::LogEvent const& log) const {
 			string ln;
 			getline(cin, ln);
 			res = from_string(ln);
-		} while(res == Logger::UserAction::NOTHING);
+		} while(!log.user_actions.contains(res));
 		return res;
 	} else {
 		if(!(log.level == Logger::Level::INFO && !verbose))
-- 
2.43.0


From 18565256b4819559a5ccc319394308c8f73a03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:07 +0000
Subject: [PATCH 42/45] fix: stop asking in the terminal once its input has
 ended

---
 src/ui/cli/logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/cli/logger.cpp b/src/ui/cli/logger.cpp
index 95b69e7..295a95a 100644
--- a/src/ui/cli/logger.cpp
+++ b/src/ui/cli/logger.cpp
@@ -100,7 +100,8 @@ Logger::UserAction LoggerSink::log(Logger::LogEvent const& log) const {
 		do {
 			print(cerr, " {} ? ", to_string(log.user_actions));
 			string ln;
-			getline(cin, ln);
+			if(!getline(cin, ln))
+				return Logger::UserAction::NOTHING;
 			res = from_string(ln);
 		} while(!log.user_actions.contains(res));
 		return res;
-- 
2.43.0


From 5bdc18a3fb5fd643c469fa54ed4fbef7b1a5f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:03 +0000
Subject: [PATCH 43/45] fix: obey the minimal angle set for a diagonal zone

---
 src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
index 07a8902..b84c890 100644
--- a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
+++ b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
@@ -74,7 +74,7 @@ void ConflictDiagonalOrCircularZone::solve_angles() {
 		if(auto view_axis = transpose(angle->plane, axis)
 		; view_axis.has_value()) {
 			auto state_a = angle->get_current_state();
-			state_a.to_mesh[view_axis.value()] = angle->angle >= global_params->get_current_state().consecutive_diagonal_minimal_angle;
+			state_a.to_mesh[view_axis.value()] = angle->angle >= state.minimal_angle;
 			angle->set_state(t, state_a);
 		}
 	}
-- 
2.43.0


From 795a42f8932d49bbc07b8c1ffe94dc7d5d8c4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:47 +0000
Subject: [PATCH 44/45] fix: keep what is set for an edge that lies in a shape

---
 src/ui/qt/edit/edit_model_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/edit/edit_model_edge.cpp b/src/ui/qt/edit/edit_model_edge.cpp
index e204c13..450297f 100644
--- a/src/ui/qt/edit/edit_model_edge.cpp
+++ b/src/ui/qt/edit/edit_model_edge.cpp
@@ -36,7 +36,7 @@ void EditModelEdge::commit() {
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
-		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
+		emit edit_from(app::Step::SOLVE_ALL_CE, [&]() {
 			auto next = edge->get_current_state();
 			next.to_mesh = state.to_mesh;
 			next.to_reverse = state.to_reverse;
-- 
2.43.0


From 99e7b1f4c891f732bf1f5013e2b9eb72b4ee25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:23 +0000
Subject: [PATCH 45/45] fix: keep what is set for edges when an angle is set

---
 src/ui/qt/edit/edit_model_angle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/qt/edit/edit_model_angle.cpp b/src/ui/qt/edit/edit_model_angle.cpp
index 94fb230..e23e9b6 100644
--- a/src/ui/qt/edit/edit_model_angle.cpp
+++ b/src/ui/qt/edit/edit_model_angle.cpp
@@ -36,7 +36,7 @@ void EditModelAngle::commit() {
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
-		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
+		emit edit_from(app::Step::SOLVE_ALL_CE, [&]() {
 			auto next = angle->get_current_state();
 			next.to_mesh = state.to_mesh;
 			angle->set_next_state(next);
-- 
2.43.0

