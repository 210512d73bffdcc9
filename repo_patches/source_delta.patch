From 2794e5a24bd9194932ce980fdd7bbb3d851668c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 01/33] fix: classify flood-fill groups without a neighbour
 vote by a point-in-solid test

If no cell next to a group is trimmed (e.g. an axis-aligned box whose faces
coincide with the background grid), the inside count stays zero and the whole
group was classified as outside, i.e. the entire volume was lost.
---
 queso/embedding/flood_fill.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..61fae4b 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -107,8 +107,14 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
 
     // Mark states
     for( auto& r_group : rGroupsOutput ){
-        int inside_count = std::get<2>(r_group);
-        auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
+        const int inside_count = std::get<2>(r_group);
+        bool is_inside = inside_count > 0;
+        if( inside_count == 0 && !std::get<1>(r_group).empty() ) {
+            // The trimmed neighbours give no decision, e.g., because there are none. Test the group directly.
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex(*std::get<1>(r_group).begin());
+            is_inside = mpBrepOperator->IsInside( PointType(0.5 * (box.lower + box.upper)) );
+        }
+        const auto state = is_inside ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
         }
-- 
2.43.0


From 6dc115fd86be6998beb518e3659898edf6744632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 02/33] fix: do not expand GGQ boxes across the end of a grid
 row

---
 queso/quadrature/multiple_elements.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..7e74c01 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,7 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
-        return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
+        // At the end of a row, GetNextElement() jumps to the next row. This is not a neighbour of the current element.
+        const auto result = rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir);
+        return result.is_end ? nullptr : result.p_element;
     }
 
     /// @brief Helper function to compute the neighbor coefficient using a linear function.
-- 
2.43.0


From f0de0734ad0c1909b2309b237fa953aaa9b20e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 03/33] fix: reject polynomial orders without a tabulated Gauss
 rule

---
 queso/utilities/check_dictionary_utilities.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 3e8eca2..b0f31fd 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -36,6 +36,7 @@ namespace CheckDictionaryUtilities {
         const IndexType min_order =  Math::Min( order );
         const IndexType max_order =  Math::Max( order );
         QuESo_ERROR_IF(min_order < 1) << "Invalid Input. The polynomial order must be p > 0. \n";
+        QuESo_ERROR_IF(max_order > 9) << "Invalid Input. Gauss-Legendre rules are only available for p <= 9. \n";
         QuESo_INFO_IF(max_order > 4) << "Warning :: QuESo is designed to construct efficient quadrature rules for 1 <= p <= 4. "
             << "For higher polynomial degrees, the process might become slow. It is recommended to use quadratic bases. Generally, they offer the best performance and accuracy.\n";
 
-- 
2.43.0


From 9c024d8751e66894ff89df2ffcc470198937fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 04/33] fix: keep condition triangles on the lower planes of
 the grid

---
 queso/embedded_model.cpp          |  5 ++++-
 queso/embedding/brep_operator.cpp | 10 ++++++++--
 queso/embedding/brep_operator.h   |  4 +++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..53f8dfc 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -240,7 +240,10 @@ void EmbeddedModel::ComputeCondition(
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
         const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
-        auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper);
+        // Triangles on a plane between two elements belong to the lower one. There is none at the lower bound of the grid.
+        const auto indices = mGridIndexer.GetMatrixIndicesFromVectorIndex(index);
+        const std::array<bool, 3> is_first{ indices[0] == 0, indices[1] == 0, indices[2] == 0 };
+        auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper, is_first);
 
         if (new_mesh.NumOfTriangles() > 0) {
             const auto p_el = mBackgroundGrid.GetElementView(index + 1);
diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 552d9a6..9cf8378 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -241,9 +241,15 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 }
 
 
-ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
+ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
+        const std::array<bool, 3>& KeepOnLowerPlanes ) const {
     const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
-    const auto lower_bound = rLowerBound + offset;
+    auto lower_bound = rLowerBound + offset;
+    for( IndexType i = 0; i < 3; ++i ){
+        if( KeepOnLowerPlanes[i] ){
+            lower_bound[i] = rLowerBound[i] - offset[i];
+        }
+    }
     const auto upper_bound = rUpperBound + offset;
     double snap_tolerance = 1.0*ZEROTOL;
 
diff --git a/queso/embedding/brep_operator.h b/queso/embedding/brep_operator.h
index 4bd7e74..58fc3a6 100644
--- a/queso/embedding/brep_operator.h
+++ b/queso/embedding/brep_operator.h
@@ -142,8 +142,10 @@ public:
     ///@see ClipTriangleMesh()
     ///@param rLowerBound Lower bound of AABB.
     ///@param rUpperBound Upper bound of AABB.
+    ///@param KeepOnLowerPlanes Directions in which triangles on the negative plane are kept as well (no adjacent AABB on that side).
     ///@return ClippedTriangleMesh. Clipped mesh.
-    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const;
+    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
+        const std::array<bool, 3>& KeepOnLowerPlanes = {false, false, false} ) const;
     ///@}
 
 private:
-- 
2.43.0


From 2bfc9f244b9e3b2688b31da1f36860e29d5ba9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 05/33] fix: keep the offset of condition clipping significant
 next to large coordinates

---
 queso/embedding/brep_operator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 9cf8378..6616e9b 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <algorithm>
 #include <cmath>
 #include <random>
 
@@ -243,7 +244,13 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 
 ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
         const std::array<bool, 3>& KeepOnLowerPlanes ) const {
-    const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
+    // The offset must not vanish next to large coordinates.
+    double max_coordinate = 1.0;
+    for( IndexType i = 0; i < 3; ++i ){
+        max_coordinate = std::max({max_coordinate, std::abs(rLowerBound[i]), std::abs(rUpperBound[i])});
+    }
+    const double offset_value = 30*ZEROTOL*max_coordinate;
+    const PointType offset{offset_value, offset_value, offset_value};
     auto lower_bound = rLowerBound + offset;
     for( IndexType i = 0; i < 3; ++i ){
         if( KeepOnLowerPlanes[i] ){
-- 
2.43.0


From 53c0d03217e1ef82c7084d0b45a797a2abbcee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 06/33] fix: report duplicate element ids as exception instead
 of terminating

An exception thrown inside an OpenMP critical section terminates the program.
---
 queso/containers/background_grid.hpp | 41 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..295c316 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,27 +327,32 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool already_exists = false;
 #pragma omp critical
         {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
-            const auto location = [&]() {
-                if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
-                    const IndexType index = mTrimmedElements.size();
-                    mTrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ true, index };
-                } else {
-                    static_assert(
-                        TBuilderType::Builds == ElementFilter::untrimmed,
-                        "The builder must either support trimmed or untrimmed element construction."
-                    );
-
-                    const IndexType index = mUntrimmedElements.size();
-                    mUntrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ false, index };
-                }
-            }();
-            mElementIdMap.emplace(Id, location);
+            // An exception must not leave the critical section (this would terminate the program).
+            already_exists = mElementIdMap.contains(Id);
+            if (!already_exists) {
+                const auto location = [&]() {
+                    if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
+                        const IndexType index = mTrimmedElements.size();
+                        mTrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ true, index };
+                    } else {
+                        static_assert(
+                            TBuilderType::Builds == ElementFilter::untrimmed,
+                            "The builder must either support trimmed or untrimmed element construction."
+                        );
+
+                        const IndexType index = mUntrimmedElements.size();
+                        mUntrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ false, index };
+                    }
+                }();
+                mElementIdMap.emplace(Id, location);
+            }
         }
+        QuESo_ERROR_IF(already_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From bfc6cea3b234f9235f874a71d9a21b27582fcd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 07/33] fix: let global integration points outlive the element
 view they come from

The lazy range captured the view itself, although views are copied and returned by value.
---
 queso/containers/element_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 1a05559..4a59689 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -98,9 +98,10 @@ public:
                 "Global integration-point access requires IntegrationPointType(PointType, double)."
             );
             const auto& r_core = mCore.get();
-            return r_core.integration_points | std::views::transform([this, &r_core](const auto& rPoint) {
+            // Captured by value: the returned range may outlive this (cheap to copy) view.
+            return r_core.integration_points | std::views::transform([det_j = mDetJ, &r_core](const auto& rPoint) {
                        return IntegrationPointType(
-                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * mDetJ
+                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * det_j
                        );
                    });
         }
-- 
2.43.0


From db7c5ca997fa8155cf8942fb6496efdfa3aa94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 08/33] fix: keep single precision in ascii STL files

---
 queso/io/io_utilities.cpp | 2 +-
 queso/io/io_utilities.tpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..2e96be0 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -48,7 +48,7 @@ void IO::WriteMeshToSTL(const TriangleMeshView& rTriangleMesh,
             binary_writer.WriteValue(attribute_byte_count);
         });
     } else { // Ascii
-        file << std::fixed << std::setprecision(6);
+        file << std::scientific << std::setprecision(8); // Keeps all digits of single precision.
         file << "solid QuESoExport\n";
         rTriangleMesh.VisitEachTriangle<WithNormals>([&file](const auto &triangle) {
             file << "facet normal " << triangle.Normal[0] << ' ' << triangle.Normal[1] << ' ' << triangle.Normal[2] << "\nouter loop\n";
diff --git a/queso/io/io_utilities.tpp b/queso/io/io_utilities.tpp
index 2fa1ca1..caa55c1 100644
--- a/queso/io/io_utilities.tpp
+++ b/queso/io/io_utilities.tpp
@@ -70,7 +70,7 @@ void IO::WriteConditionToSTL(const Condition<TElementType>& rCondition,
             });
         }
     } else { // ascii
-        file << std::fixed << std::setprecision(6);
+        file << std::scientific << std::setprecision(8); // Keeps all digits of single precision.
         file << "solid QuESoExport\n";
         for(const auto& r_segments : rCondition.GetSegments()) {
             const auto& r_triangle_mesh = r_segments.GetTriangleMesh();
-- 
2.43.0


From 5704cdfed26d8f258e35a250544fb2466105d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 09/33] fix: reject malformed vertex lines in ascii STL files

---
 queso/io/io_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 2e96be0..262f87a 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -247,9 +247,10 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 }
                 std::istringstream iss(line);
                 std::string word;
-                iss >> word; // "vertex"
                 float xf, yf, zf;
-                iss >> xf >> yf >> zf;
+                if( !(iss >> word >> xf >> yf >> zf) || word != "vertex" ) {
+                    QuESo_ERROR << "Expected 'vertex x y z' but got: " << line << '.' << std::endl;
+                }
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
-- 
2.43.0


From 674b63282c60f0a790a03d2efeaa955ca1bd6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 10/33] fix: reject non-finite vertices in binary STL files

---
 queso/io/io_utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 262f87a..ac7caec 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cmath>
 #include <map>
 //// Project includes
 #include "queso/io/io_utilities.h"
@@ -328,6 +329,8 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
             float coords[3];
             file.read(reinterpret_cast<char*>(coords), sizeof(coords));
             QuESo_ERROR_IF(!file) << "Couldn't read triangle vertex." << std::endl;
+            QuESo_ERROR_IF(!std::isfinite(coords[0]) || !std::isfinite(coords[1]) || !std::isfinite(coords[2]))
+                << "Triangle vertex is not finite." << std::endl;
 
             Vector3d vertex = {static_cast<double>(coords[0]),
                                static_cast<double>(coords[1]),
-- 
2.43.0


From c5feea89ed62d15b2b864d4b130d49b5a5bf9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 11/33] fix: accept ascii STL files whose solid name contains a
 keyword

---
 queso/io/io_utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index ac7caec..e543281 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -223,6 +223,9 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
 
     std::string line;
 
+    // Skip header. Note that the name of the solid may contain any keyword.
+    std::getline(file, line);
+
     // Skip lines until we hit the first "facet"
     while (std::getline(file, line)) {
         if (line.find("facet") != std::string::npos) {
-- 
2.43.0


From ccd28cdd04d23bd1344877e46e977a66819361da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 12/33] fix: do not throw from the destructor of
 BinaryBufferWriter

---
 queso/io/binary_buffer_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..7016f76 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -55,8 +55,11 @@ public:
     }
 
     /// Destructor
+    /// @note Must not throw. If writing fails, the state of the filestream is set accordingly.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From 08c2032cd503338faffdde5932e19b7f24a7529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 13/33] fix: escape strings that are printed in JSON format

---
 queso/containers/data_set.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/queso/containers/data_set.hpp b/queso/containers/data_set.hpp
index 3e40f73..f184907 100644
--- a/queso/containers/data_set.hpp
+++ b/queso/containers/data_set.hpp
@@ -95,7 +95,20 @@ public:
         void operator()(const Vector3i& rValue){mOstream << '[' << rValue[0] << ", " << rValue[1] << ", " << rValue[2] << ']';};
         void operator()(const IndexType& rValue){ mOstream << rValue;};
         void operator()(const double& rValue){mOstream << rValue;};
-        void operator()(const std::string& rValue){mOstream << '\"' << rValue << '\"';};
+        void operator()(const std::string& rValue){
+            mOstream << '\"';
+            for (const char c : rValue) {
+                if (c == '\"' || c == '\\') {
+                    mOstream << '\\' << c;
+                } else if (static_cast<unsigned char>(c) < 0x20) { // Control characters.
+                    constexpr char hex_digits[] = "0123456789abcdef";
+                    mOstream << "\\u00" << hex_digits[(c >> 4) & 0xf] << hex_digits[c & 0xf];
+                } else {
+                    mOstream << c;
+                }
+            }
+            mOstream << '\"';
+        };
         void operator()(const bool& rValue){std::string out = (rValue) ? "true" : "false"; mOstream << out; };
         void operator()(const IntegrationMethodType& rValue){ mOstream << '\"' << rValue << '\"'; };
         void operator()(const GridTypeType& rValue){ mOstream << '\"' << rValue << '\"'; };
-- 
2.43.0


From 8847952ac438e8a98e83b5f3dfd464d6afdfd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 14/33] fix: reject background grids without elements

---
 queso/utilities/check_dictionary_utilities.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index b0f31fd..ef15eb6 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -48,6 +48,7 @@ namespace CheckDictionaryUtilities {
 
         // Check 'number_of_elements' related settings.
         const Vector3i num_elements = rSettings[MainSettings::background_grid_settings].GetRequiredValue<Vector3i>(BackgroundGridSettings::number_of_elements);
+        QuESo_ERROR_IF(Math::Min(num_elements) < 1) << "Invalid Input. The number of elements must be n > 0 in each direction. \n";
         const IndexType tot_num_elements = num_elements[0]*num_elements[1]*num_elements[2];
         QuESo_INFO_IF( tot_num_elements < 2 && echo_level > 0 ) << "You are using only one single element.\n";
 
-- 
2.43.0


From 051213c767246d6177c00ffc7929f7be78bc0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 15/33] fix: reject degenerate or inverted bounds of the
 background grid

---
 queso/utilities/check_dictionary_utilities.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index ef15eb6..2fd0bad 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -14,6 +14,9 @@
 #ifndef CHECK_DICTIONARY_UTILITIES_INCLUDE_HPP
 #define CHECK_DICTIONARY_UTILITIES_INCLUDE_HPP
 
+//// STL includes
+#include <cmath>
+
 //// Project includes
 #include "queso/includes/define.hpp"
 #include "queso/containers/dictionary.hpp"
@@ -52,6 +55,19 @@ namespace CheckDictionaryUtilities {
         const IndexType tot_num_elements = num_elements[0]*num_elements[1]*num_elements[2];
         QuESo_INFO_IF( tot_num_elements < 2 && echo_level > 0 ) << "You are using only one single element.\n";
 
+        // Check bounds.
+        const auto& r_grid_settings = rSettings[MainSettings::background_grid_settings];
+        const auto& r_lower_xyz = r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_xyz);
+        const auto& r_upper_xyz = r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz);
+        const auto& r_lower_uvw = r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_uvw);
+        const auto& r_upper_uvw = r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_uvw);
+        for (IndexType i = 0; i < 3; ++i) {
+            const double delta_xyz = r_upper_xyz[i] - r_lower_xyz[i];
+            const double delta_uvw = r_upper_uvw[i] - r_lower_uvw[i];
+            QuESo_ERROR_IF(!(delta_xyz > 0.0) || !std::isfinite(delta_xyz)) << "Invalid Input. 'upper_bound_xyz' must be greater than 'lower_bound_xyz'. \n";
+            QuESo_ERROR_IF(!(delta_uvw > 0.0) || !std::isfinite(delta_uvw)) << "Invalid Input. 'upper_bound_uvw' must be greater than 'lower_bound_uvw'. \n";
+        }
+
         const IntegrationMethod integration_method = rSettings[MainSettings::non_trimmed_quadrature_rule_settings]
             .GetRequiredValue<IntegrationMethod>(NonTrimmedQuadratureRuleSettings::integration_method);
 
-- 
2.43.0


From d9a94c2f1e159c1e0e1de65cc64c2412413f539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 16/33] fix: reject moment fitting residuals that are not
 positive

---
 queso/utilities/check_dictionary_utilities.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 2fd0bad..d0fdea7 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -68,6 +68,11 @@ namespace CheckDictionaryUtilities {
             QuESo_ERROR_IF(!(delta_uvw > 0.0) || !std::isfinite(delta_uvw)) << "Invalid Input. 'upper_bound_uvw' must be greater than 'lower_bound_uvw'. \n";
         }
 
+        // Check 'moment_fitting_residual'. The moment fitting equations are only solved if the target residual is positive.
+        const double moment_fitting_residual = rSettings[MainSettings::trimmed_quadrature_rule_settings]
+            .GetRequiredValue<double>(TrimmedQuadratureRuleSettings::moment_fitting_residual);
+        QuESo_ERROR_IF( !(moment_fitting_residual > 0.0) ) << "Invalid Input. 'moment_fitting_residual' must be > 0. \n";
+
         const IntegrationMethod integration_method = rSettings[MainSettings::non_trimmed_quadrature_rule_settings]
             .GetRequiredValue<IntegrationMethod>(NonTrimmedQuadratureRuleSettings::integration_method);
 
-- 
2.43.0


From 7e65b6bd21d1026c83464e635e14a52cad1b46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 17/33] fix: check the size of binary STL files before
 reserving memory

---
 queso/io/io_utilities.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index e543281..f591eb7 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -314,6 +314,16 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
     if(!(file.read(reinterpret_cast<char*>(&num_triangles), sizeof(num_triangles)))) {
         QuESo_ERROR << "Couldnt read number of triangles." << std::endl;
     }
+
+    // Make sure that the file contains the promised number of triangles, before memory is reserved for them.
+    const std::streamoff begin_triangles = file.tellg();
+    file.seekg(0, std::ios::end);
+    const std::streamoff size_triangles = file.tellg() - begin_triangles;
+    file.seekg(begin_triangles, std::ios::beg);
+    const std::streamoff bytes_per_triangle = 12*sizeof(float) + sizeof(std::uint16_t);
+    QuESo_ERROR_IF(!file || size_triangles / bytes_per_triangle < static_cast<std::streamoff>(num_triangles))
+        << "File " << rFilename << " contains less triangles than stated in its header." << std::endl;
+
     rTriangleMesh.Clear();
     rTriangleMesh.Reserve(static_cast<IndexType>(num_triangles));
 
-- 
2.43.0


From 70575f4d681c2263fb8b58e34ff1c68b3af7ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 18/33] fix: remove data race on the number of threads in the
 flood fill

---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 61fae4b..cd28336 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -69,6 +69,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     IndexType num_threads = 1;
     #pragma omp parallel
     {
+        #pragma omp single
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
 
-- 
2.43.0


From 88635642445d2ab2d74cb936b9817cc054a02a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 19/33] fix: do not access the root of an empty AABB tree

---
 queso/embedding/aabb_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..c5eea17 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,12 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        if (node == NULL_NODE) continue;
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0


From e2211f0a364f54b090fc3652483ef67a553a11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 20/33] fix: accept empty lists of conditions in JSON settings

---
 queso/python/scripts/json_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 05dd0e3..5e497f1 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -78,7 +78,7 @@ class JsonIO():
             value (list): The list of values from JSON.
             queso_settings (QuESo.Dictionary): The settings object to modify.
         """
-        if( isinstance(value[0], dict) ):
+        if( not value or isinstance(value[0], dict) ): # Empty lists can only be lists of conditions.
             queso_list = queso_settings.GetList(string_key) # Just called to check key, and throw an error if necessary.
             cls._read_conditions_settings_list(value, queso_list)
         else:
-- 
2.43.0


From f81d507595197bc4f8841bd47250b755c67421c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 21/33] fix: keep negative integers from being taken for
 booleans by Dictionary.SetValue

---
 queso/python/bindings/dictionary_binder_helper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queso/python/bindings/dictionary_binder_helper.hpp b/queso/python/bindings/dictionary_binder_helper.hpp
index aa8f2cf..533381c 100644
--- a/queso/python/bindings/dictionary_binder_helper.hpp
+++ b/queso/python/bindings/dictionary_binder_helper.hpp
@@ -50,7 +50,8 @@ void DictionaryBinderHelper(py::class_<TDictType, Unique<TDictType>>& binder) {
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, const Vector3i& rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, bool rValue){
-        StringAccess::SetValue(rDictionary, rKeyName, rValue); });
+        StringAccess::SetValue(rDictionary, rKeyName, rValue); },
+            py::arg("rKeyName"), py::arg("rValue").noconvert() ); // No implicit conversion, e.g., from negative integers.
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, double rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, IndexType rValue){
-- 
2.43.0


From 05b0c17c1a7abf54842f72b45eb6142ae8534b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 22/33] fix: read the weight of integration points in
 PyQuESo.GetIntegrationPoints

---
 queso/python/PyQuESo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..b05cdb3 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -91,7 +91,7 @@ class PyQuESo:
         for element in self.GetElements():
             if element.IsTrimmed():
                 for point_trimmed_reduced in element.GetIntegrationPoints():
-                    weight = point_trimmed_reduced.Weight()
+                    weight = point_trimmed_reduced.weight
                     if( weight > 0):
                         integration_points.append(point_trimmed_reduced)
             else:
-- 
2.43.0


From 9bf31e078e81d8a63b38d92a949c0a8e371ee635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 23/33] fix: keep PyQuESo from removing the working directory

---
 queso/python/PyQuESo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index b05cdb3..cdf2ad0 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -23,6 +23,10 @@ class PyQuESo:
         output_directory_name = settings["general_settings"].GetString("output_directory_name")
         if write_output_to_file:
             folder_path = "./" + output_directory_name + '/'
+            # The folder is emptied. Hence, it must not be the working directory or one of its parents.
+            real_folder_path = os.path.realpath(folder_path)
+            if os.path.commonpath([real_folder_path, os.path.realpath(".")]) == real_folder_path:
+                raise Exception(f'PyQuESo :: Output directory "{output_directory_name}" contains the working directory.')
             if os.path.exists(folder_path):
                 shutil.rmtree(folder_path)
             os.mkdir(folder_path)
-- 
2.43.0


From 4ff202761ef612bc50c30c0f1a38a220bb540d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 24/33] fix: check indices given to meshes, segments and
 dictionary lists in Python

---
 queso/python/bindings/add_containers_to_python.cpp | 10 +++++++++-
 queso/python/bindings/add_dictionary_to_python.cpp |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1eca5a2..a85a6ca 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -198,6 +198,10 @@ void AddContainersToPython(pybind11::module& m) {
         .def("AddTriangle", [](TriangleMesh& self, const std::array<IndexType,3>& rTriangle){
             const Vector3i triangle_indices(rTriangle);
             const auto &vertices = self.Vertices();
+            for( IndexType i = 0; i < 3; ++i ) {
+                if( triangle_indices[i] >= vertices.size() )
+                    throw py::index_error();
+            }
             const TriangleProxy<WithoutNormals> triangle {
                 std::span<const double, 3>(vertices[triangle_indices[0]].data(), 3),
                 std::span<const double, 3>(vertices[triangle_indices[1]].data(), 3),
@@ -247,7 +251,11 @@ void AddContainersToPython(pybind11::module& m) {
     // Export ConditionSegment Vector
     py::class_<ConditionSegmentVectorType>(m, "ConditionSegmentVector")
         .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i)
-            { return &self[i]; }, py::return_value_policy::reference_internal)
+            {
+                if( i >= self.size() )
+                    throw py::index_error();
+                return &self[i];
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index dd2d9a6..0443500 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -54,7 +54,11 @@ void AddDictionaryToPython(pybind11::module& m) {
     // Export vector
     py::class_<DictionaryVectorPtrType>(m, "DictionaryList")
         .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i)
-            { return &(*self[i]); }, py::return_value_policy::reference_internal)
+            {
+                if( i >= self.size() )
+                    throw py::index_error();
+                return &(*self[i]);
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const DictionaryVectorPtrType &self) { return self.size(); })
         .def("__iter__", [](DictionaryVectorPtrType &self) {
             return py::make_iterator( dereference_iterator(self.begin()), dereference_iterator(self.end()) );
-- 
2.43.0


From 7cde28d11e68e533a77d758c4369da2c86c457b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 25/33] fix: keep the owner of elements, triangles and segments
 alive in Python

---
 .../bindings/add_containers_to_python.cpp     | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index a85a6ca..ec75979 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -76,6 +76,19 @@ inline std::tuple<double, double, double> ToTuple3(const Vector3d &rV)
     return { rV[0], rV[1], rV[2] };
 }
 
+/// Returns a list of all elements, where each element keeps its owner (rSelf) alive.
+template<class TOwner>
+py::list GetElementsList(const py::object& rSelf)
+{
+    py::list elements;
+    for( const ElementViewType& r_view : py::cast<const TOwner&>(rSelf).GetElementViews() ) {
+        py::object element = py::cast(ElementViewType(r_view));
+        py::detail::keep_alive_impl(element, rSelf);
+        elements.append(element);
+    }
+    return elements;
+}
+
 } // namespace
 
 using namespace pybind11::literals;
@@ -88,7 +101,7 @@ void AddContainersToPython(pybind11::module& m) {
                 throw py::stop_iteration();
             }
             return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     py::class_<PythonVertexIterator>(m, "VertexIterator")
@@ -230,14 +243,7 @@ void AddContainersToPython(pybind11::module& m) {
 		.def(py::init<const GridType::MainDictionaryType&>())
 		.def(
 			"GetElements",
-			[](const GridType& rGrid) {
-				std::vector<ElementViewType> elements;
-				const auto views = rGrid.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			},
-			py::keep_alive<0, 1>()
+			&GetElementsList<GridType>
 		)
 		.def("NumberOfActiveElements", &GridType::NumberOfActiveElements)
 		.def("GetConditions", &GridType::GetConditions, py::return_value_policy::reference_internal)
@@ -259,7 +265,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     /// Export Condition
@@ -283,14 +289,7 @@ void AddContainersToPython(pybind11::module& m) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
         }))
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
-		.def("GetElements",
-			[](const EmbeddedModel& rEmbeddedModel) {
-				std::vector<ElementViewType> elements;
-				const auto views = rEmbeddedModel.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			})
+		.def("GetElements", &GetElementsList<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
         .def("GetSettings", &EmbeddedModel::GetSettings, py::return_value_policy::reference_internal)
         .def("GetModelInfo", static_cast<const EmbeddedModel::MainDictionaryType& (EmbeddedModel::*)() const>(&EmbeddedModel::GetModelInfo),
-- 
2.43.0


From 99bb33a3b351e5166403a0cdb0e65f72a1820940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 26/33] fix: keep settings referenced through their holder
 valid in Python

---
 queso/python/bindings/add_containers_to_python.cpp | 6 ++++--
 queso/python/bindings/add_dictionary_to_python.cpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index ec75979..1074eff 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -286,8 +286,10 @@ void AddContainersToPython(pybind11::module& m) {
     /// Export EmbeddedModel
     py::class_<EmbeddedModel>(m,"EmbeddedModel")
         .def(py::init([](MainDictionaryHolderType& rSettings) {
-            return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
-        }))
+            rSettings.GetObject(); // Throws, if the settings have been released already.
+            // The holder remains the owner, if the settings are rejected.
+            return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(std::move(rSettings.mpData)));
+        }), py::keep_alive<2, 1>()) // References to the settings obtained from the holder remain valid.
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements", &GetElementsList<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index 0443500..911136c 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -65,7 +65,7 @@ void AddDictionaryToPython(pybind11::module& m) {
         }, py::keep_alive<0, 1>() )
         .def("append", [](DictionaryVectorPtrType& self, MainDictionaryHolderType& rDictionaryHolder){
             self.push_back(std::move(rDictionaryHolder.Release()));
-        } )
+        }, py::keep_alive<2, 1>() ) // References to the dictionary obtained from the holder remain valid.
     ;
 
 } // End AddDictionaryToPython
-- 
2.43.0


From ce3e1ac1d292c67f6608e022682ca0dafb80556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 27/33] fix: report surface loads without a direction as an
 error

---
 kratos_interface/weak_bcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/weak_bcs.py b/kratos_interface/weak_bcs.py
index bc0b9eb..7f3ef50 100644
--- a/kratos_interface/weak_bcs.py
+++ b/kratos_interface/weak_bcs.py
@@ -215,7 +215,7 @@ class SurfaceLoad(WeakBcsBase):
         direction_array = np.array(direction)
         norm_direction = np.linalg.norm(direction_array)
         if norm_direction < 1e-10:
-            Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
+            raise Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
         normalized_direction = direction_array / norm_direction
         self.force = modulus * normalized_direction
 
-- 
2.43.0


From af0cecd7036cc6e7ee1cbc48c52252bad1c4a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 28/33] fix: Python triangles keep a copy of their data

Triangles that are taken from a mesh in Python referred to the storage of the
mesh and dangled after AddVertex() or AddTriangle().
---
 .../bindings/add_containers_to_python.cpp     | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1074eff..f50c838 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -56,7 +56,17 @@ namespace py = pybind11;
 
 namespace {
 
-using PythonTriangleProxy = TriangleProxy<WithNormals>;
+/// Copy of a triangle. In contrast to the TriangleProxy, it remains valid if its mesh is modified.
+struct PythonTriangle {
+    explicit PythonTriangle(const TriangleProxy<WithNormals>& rTriangle)
+        : mP1{ rTriangle.P1[0], rTriangle.P1[1], rTriangle.P1[2] }, mP2{ rTriangle.P2[0], rTriangle.P2[1], rTriangle.P2[2] },
+          mP3{ rTriangle.P3[0], rTriangle.P3[1], rTriangle.P3[2] }, mNormal{ rTriangle.Normal[0], rTriangle.Normal[1], rTriangle.Normal[2] }
+    {}
+
+    TriangleProxy<WithNormals> Proxy() const { return { mP1, mP2, mP3, mNormal }; }
+
+    Vector3d mP1, mP2, mP3, mNormal;
+};
 
 struct TriangleIteratorTag {};
 
@@ -100,8 +110,8 @@ void AddContainersToPython(pybind11::module& m) {
             if (self.mIndex >= self.mpMesh->NumOfTriangles()) {
                 throw py::stop_iteration();
             }
-            return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
-        }, py::keep_alive<0, 1>())
+            return PythonTriangle(self.mpMesh->Triangle<WithNormals>(self.mIndex++));
+        })
     ;
 
     py::class_<PythonVertexIterator>(m, "VertexIterator")
@@ -114,22 +124,22 @@ void AddContainersToPython(pybind11::module& m) {
         })
     ;
 
-    py::class_<PythonTriangleProxy>(m, "Triangle")
-        .def_property_readonly("p1", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P1[0], self.P1[1], self.P1[2]}); })
-        .def_property_readonly("p2", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P2[0], self.P2[1], self.P2[2]}); })
-        .def_property_readonly("p3", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P3[0], self.P3[1], self.P3[2]}); })
-        .def_property_readonly("normal", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.Normal[0], self.Normal[1], self.Normal[2]}); })
-        .def("Area", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::Area(self);
+    py::class_<PythonTriangle>(m, "Triangle")
+        .def_property_readonly("p1", [](const PythonTriangle &self){ return ToTuple3(self.mP1); })
+        .def_property_readonly("p2", [](const PythonTriangle &self){ return ToTuple3(self.mP2); })
+        .def_property_readonly("p3", [](const PythonTriangle &self){ return ToTuple3(self.mP3); })
+        .def_property_readonly("normal", [](const PythonTriangle &self){ return ToTuple3(self.mNormal); })
+        .def("Area", [](const PythonTriangle &self){
+            return TriangleUtilities::Area(self.Proxy());
         })
-        .def("Center", [](const PythonTriangleProxy &self){
-            return ToTuple3(TriangleUtilities::Center(self));
+        .def("Center", [](const PythonTriangle &self){
+            return ToTuple3(TriangleUtilities::Center(self.Proxy()));
         })
-        .def("AspectRatio", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::AspectRatio(self);
+        .def("AspectRatio", [](const PythonTriangle &self){
+            return TriangleUtilities::AspectRatio(self.Proxy());
         })
-        .def("GetIPsGlobal", [](const PythonTriangleProxy &self, IndexType Method){
-            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self, Method);
+        .def("GetIPsGlobal", [](const PythonTriangle &self, IndexType Method){
+            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self.Proxy(), Method);
         }, py::return_value_policy::move)
     ;
 
-- 
2.43.0


From 3d8636e15709834bd64cb18a4c31f480b2c26003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 29/33] fix: keep BRepOperator alive as long as the elements of
 the model

Trimmed elements store a pointer to the global BRepOperator, which was a local
variable of EmbeddedModel::ComputeVolume().
---
 queso/embedded_model.cpp |  3 ++-
 queso/embedded_model.h   | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 53f8dfc..ee8ee74 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -45,7 +45,8 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     const IndexType global_number_of_elements = mGridIndexer.NumberOfElements();
 
     // Construct BRepOperator.
-    BRepOperator brep_operator(rTriangleMesh);
+    mpBRepOperator = MakeUnique<const BRepOperator>(rTriangleMesh);
+    const BRepOperator& brep_operator = *mpBRepOperator;
 
     // Classify all elements.
     Timer timer_check_intersect{};
diff --git a/queso/embedded_model.h b/queso/embedded_model.h
index e91de2f..9b9d49f 100644
--- a/queso/embedded_model.h
+++ b/queso/embedded_model.h
@@ -21,6 +21,7 @@
 #include "queso/includes/dictionary_factory.hpp"
 #include "queso/utilities/check_dictionary_utilities.hpp"
 #include "queso/containers/triangle_mesh.hpp"
+#include "queso/embedding/brep_operator.h"
 
 namespace queso {
 
@@ -100,10 +101,12 @@ public:
         QuESo_INFO_IF(echo_level > 0) << "QuESo: Create Volume -------------------------------------- START" << std::endl;
 
         const auto& r_filename = r_general_settings.GetRequiredValue<std::string>(GeneralSettings::input_filename);
-        TriangleMesh triangle_mesh{};
-        IO::ReadMeshFromSTL(triangle_mesh, r_filename.c_str());
+        // The mesh is stored, since the created elements refer to it.
+        auto p_triangle_mesh = MakeUnique<TriangleMesh>();
+        IO::ReadMeshFromSTL(*p_triangle_mesh, r_filename.c_str());
 
-        ComputeVolume(triangle_mesh.View());
+        ComputeVolume(p_triangle_mesh->View());
+        mpTriangleMesh = std::move(p_triangle_mesh);
         PrintVolumeElapsedTimeInfo();
 
         QuESo_INFO_IF(echo_level > 0) << "QuESo: Create Volume ---------------------------------------- End\n";
@@ -131,6 +134,7 @@ public:
     ///@brief Creates integration points for an embedded volume that is enclosed/defined by rTriangleMesh.
     ///       This interface enables to pass a TriangleMeshView and, hence, facilitates other applications to
     ///       use QuESo on C++ level, which do not want QuESo to read rTriangleMesh from an input file.
+    ///@note  The underlying mesh must outlive the created elements.
     ///@param rTriangleMesh
     ///@see CreateAllFromSettings <- Creates volume and condition directly from input files specified in mSettings.
     ///@todo Add try{} catch{} plus error handler
@@ -239,6 +243,8 @@ private:
     ///@{
     Unique<const MainDictionaryType> mpSettings;
     GridIndexer mGridIndexer;
+    Unique<const TriangleMesh> mpTriangleMesh; // Only set, if the mesh is read from file.
+    Unique<const BRepOperator> mpBRepOperator; // Trimmed elements keep a pointer to this operator.
     BackgroundGridType mBackgroundGrid;
     Unique<MainDictionaryType> mpModelInfo;
     ///@}
-- 
2.43.0


From 4943df2bae3feada7b568ef7b0ec279ddc50509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 30/33] fix: raise an error if the volume of a model is created
 twice

A second call of CreateVolume() or CreateAllFromSettings() terminated the process,
since an exception was thrown inside of a parallel region.
---
 queso/embedded_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index ee8ee74..6c0aef2 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -27,6 +27,8 @@ namespace queso {
 void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
 {
 
+    QuESo_ERROR_IF( mBackgroundGrid.NumberOfActiveElements() > 0 ) << "The volume of this model has already been created.\n";
+
     CheckIfMeshIsWithinBoundingBox(rTriangleMesh);
 
     // Set ModelInfo.
-- 
2.43.0


From 633e2f854625216e665da7614a8fd7b6ad1a37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 31/33] fix: do not evaluate hit parameters of triangles
 parallel to the ray

Ray_AABB_primitive::intersect() does not set t, u and v for parallel triangles.
---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..d13d0b5 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -120,6 +120,10 @@ namespace queso {
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
                 intersection_count++;
+                if( parallel ){ // Triangle is parallel to ray. t, u and v are not set.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
                     final_result = std::make_pair(false, true);
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 9a396d1dba817c9a6cda0f92646acdca6031ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 32/33] fix: do not extend the points of a cut cell beyond the
 candidates

If the octree finds fewer points than there are moments, erase() was called with
a range that starts behind the end, which added whatever was left in the memory
of the vector to the rule.
---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 86990d8a40ba00decdcd6787daa29532e83adfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 33/33] fix: hits on an edge of a grazed triangle are not lost

The parametric coordinates of a hit were compared with an absolute tolerance, but
their rounding errors grow with the inverse of the determinant. A ray that grazes
a surface could therefore pass between two triangles through their common edge,
and the point it starts from was put on the wrong side.
---
 queso/embedding/ray_aabb_primitive.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/ray_aabb_primitive.cpp b/queso/embedding/ray_aabb_primitive.cpp
index 07b8477..da2a688 100644
--- a/queso/embedding/ray_aabb_primitive.cpp
+++ b/queso/embedding/ray_aabb_primitive.cpp
@@ -11,6 +11,9 @@
 //
 //  Authors:    Manuel Messmer
 
+//// STL includes
+#include <algorithm>
+
 //// Project includes
 #include "queso/embedding/ray_aabb_primitive.h"
 #include "queso/utilities/math_utilities.hpp"
@@ -204,10 +207,18 @@ bool Ray_AABB_primitive::intersect(PointView v0, PointView v1, PointView v2,
     // Substraction: mOrigin - v0
     Vector3d tvec = mOrigin - v0;
 
+    // The rounding errors of u and v grow with 1/det, if the ray grazes the triangle.
+    const auto max_norm = [](const Vector3d& rVector) {
+        return std::max({std::abs(rVector[0]), std::abs(rVector[1]), std::abs(rVector[2])});
+    };
+    const double scale = max_norm(tvec) * std::abs(invDet);
+    const double tolerance_u = ZEROTOL * std::max(1.0, scale * max_norm(pvec));
+    const double tolerance_v = ZEROTOL * std::max(1.0, scale * max_norm(v0v1));
+
     // Dot product x invDet: (tvec * pvec) * invDet
     u = Math::Dot(tvec, pvec) * invDet;
 
-    if (u < -ZEROTOL || u > 1+ZEROTOL)
+    if (u < -tolerance_u || u > 1+tolerance_u)
         return false;
 
     // Cross product: tvec x v0v1
@@ -216,9 +227,17 @@ bool Ray_AABB_primitive::intersect(PointView v0, PointView v1, PointView v2,
     // Dot product x invDet: (mDirection * qvec) * invDet
     v = Math::Dot(mDirection, qvec) * invDet;
 
-    if (v < -ZEROTOL || u + v > 1+ZEROTOL)
+    if (v < -tolerance_v || u + v > 1+tolerance_u+tolerance_v)
         return false;
 
+    // Hits that can not be distinguished from hits on an edge are moved onto this edge.
+    if (u < tolerance_u)
+        u = 0.0;
+    if (v < tolerance_v)
+        v = 0.0;
+    if (u + v > 1-tolerance_u-tolerance_v)
+        v = 1-u;
+
     // Dot product x invDet: (v0v2 * qvec) * invDet
     t = Math::Dot(v0v2, qvec) * invDet;
 
-- 
2.43.0

