From 207c880df2b88f7312af745fde56e4dffdda77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 01/63] fix: local_coordinates stops on the relative residual
 only

The early exit compared the absolute initial residual with the relative
tolerance, hence every point of an element smaller than the tolerance was
mapped to the starting guess.
---
 src/Caribou/Geometry/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/Element.h b/src/Caribou/Geometry/Element.h
index fdbd558..07a1ad9 100644
--- a/src/Caribou/Geometry/Element.h
+++ b/src/Caribou/Geometry/Element.h
@@ -237,8 +237,8 @@ struct Element {
         FLOATING_POINT_TYPE r_norm_2 = residual.squaredNorm();
         FLOATING_POINT_TYPE r0_norm_2 = r_norm_2;
 
-        if (r_norm_2 < squared_threshold) {
-            // The initial guess is good enough
+        if (not (r_norm_2 > 0)) {
+            // The initial guess is already the exact solution
             return xi;
         }
 
-- 
2.43.0


From 769b0c196fa402fb22bce927dee5cf7d7bf351b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 02/63] fix: mid-edge node indices of the quadratic rectangular
 hexahedron faces

The table was written for another node numbering than the documented one
used by the nodes, edges and shape functions of the element.
---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..abcb4ee 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From 603f9b2ba5a9348182a927ce59b817130fcf0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 03/63] fix: announced number of gauss nodes of quadratic
 rectangular elements

number_of_gauss_nodes() returned 4 for the 8 integration points of the
hexahedron, and 8 for the 4 integration points of the quad (reading past the
end of the table when used as a loop bound).
---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 src/Caribou/Geometry/RectangularQuad.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index abcb4ee..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From 08a5137baebb31725bbf5a0cf48166c8d3eeb529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 04/63] fix: missing contains_local of rectangular quads

Element::contains_local could not be instantiated with rectangular quads.
---
 src/Caribou/Geometry/BaseRectangularQuad.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..dd862a5 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -92,6 +92,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From fd15e47e874803454d875e3cc98115baa83cb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 05/63] fix: frame() of hexahedrons could not be instantiated

---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From 61a56f67f3aa2612872169f83a7e8fff818c1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 06/63] fix: cells_around returned wrapped or invalid cells for
 points outside of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..af67805 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,10 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell_coordinates = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            if ((cell_coordinates.array() >= 0).all() and
+                (cell_coordinates.array() < N(). template cast<Int>().array()).all()) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell_coordinates));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +194,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From 23e4c8b7a958cfca06a8d8cb3a6beea5d3498811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 07/63] fix: cells_enclosing ignored the positions lying
 outside of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 70 ++++++-------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index af67805..b2424de 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -325,63 +325,33 @@ struct BaseGrid
         GridCoordinates lower_grid_boundary = GridCoordinates::Zero();
         GridCoordinates upper_grid_boundary = N(). template cast<Int>() - GridCoordinates::Ones();
 
-        // Tool function that returns the minimum grid coordinates between two grid coordinates
-        auto min_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & min_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates lower_bound = min_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-                            lower_bound[i] = std::min(coordinates[i], lower_bound[i]);
-
-                            // Clip to grid boundaries if the coordinates lies outside of the grid
-                            lower_bound[i] = std::max(lower_bound[i], lower_grid_boundary[i]);
-                            lower_bound[i] = std::min(lower_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return lower_bound;
-                };
-
-        // Tool function that returns the maximum grid coordinates between two grid coordinates
-        auto max_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & max_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates upper_bound = max_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-
-                            upper_bound[i] = std::max(coordinates[i], upper_bound[i]);
-
-                            // Clip to grid boundaries if the coordinate lies outside of the grid
-                            upper_bound[i] = std::max(upper_bound[i], lower_grid_boundary[i]);
-                            upper_bound[i] = std::min(upper_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return upper_bound;
-                };
-
         // 1. Find the grid coordinates bounding box of the cells that contain each nodes
-        GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
-        GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
+        GridCoordinates lower_cell = upper_grid_boundary;
+        GridCoordinates upper_cell = lower_grid_boundary;
 
         // This is used to discard the bbox computation if all points are outside the grid
-        bool grid_contains_at_least_one_point = contains(WorldCoordinates(positions[0]));
-
-        for (size_t i = 1; i < positions.size(); ++ i) {
+        bool grid_contains_at_least_one_point = false;
 
-            if (not grid_contains_at_least_one_point and contains(WorldCoordinates(positions[i])))
+        const VecFloat h = H();
+        for (const WorldCoordinates & position : positions) {
+            if (contains(position))
                 grid_contains_at_least_one_point = true;
 
-            const auto coordinates = cells_around(positions[i]);
+            const VecFloat absolute = ((position - m_anchor_position).array() / h.array()).matrix();
+            for (size_t i = 0; i < Dimension; ++i) {
+                // A position lying between two cells (on a node, an edge or a face) is enclosed by both of them
+                const Float rounded = std::round(absolute[i]);
+                const bool  close_to_axis = (absolute[i]-rounded)*(absolute[i]-rounded) < EPSILON*EPSILON;
+
+                // Clip to grid boundaries if the coordinates lies outside of the grid
+                const auto clip = [&](const Float & x) -> Int {
+                    return static_cast<Int>(std::min(std::max(x, static_cast<Float>(lower_grid_boundary[i])),
+                                                     static_cast<Float>(upper_grid_boundary[i])));
+                };
 
-            lower_cell = min_between(coordinates, lower_cell);
-            upper_cell = max_between(coordinates, upper_cell);
+                lower_cell[i] = std::min(lower_cell[i], clip(close_to_axis ? rounded - 1 : std::floor(absolute[i])));
+                upper_cell[i] = std::max(upper_cell[i], clip(close_to_axis ? rounded     : std::floor(absolute[i])));
+            }
         }
 
         if (not grid_contains_at_least_one_point)
-- 
2.43.0


From caaa415421780666b37107a992416e2d98795f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 08/63] fix: removing a domain which is not the first of the
 mesh never returned

---
 src/Caribou/Topology/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..8b6115a 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +469,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From 3d41ca83962dce337e1e2031f617a8bab94a70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 09/63] fix: a domain could be added to a mesh under an already
 used name

---
 src/Caribou/Topology/Mesh.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 8b6115a..92081bf 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -430,10 +430,13 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             } else if (domain->mesh() != nullptr) {
                 // The domain is already attached to another Mesh
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
-            } else {
-                domain->attach_to(this);
             }
 
+            if (this->domain(name) != nullptr) {
+                throw std::domain_error(std::string("A domain with the name ") + name + " already exists.");
+            }
+
+            domain->attach_to(this);
             p_domains.emplace_back(name, domain);
             return domain;
         }
-- 
2.43.0


From 1c4789d72b6f2c362abd01bded32a24ad6824e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 10/63] fix: Mesh::positions(std::array) did not compile

---
 src/Caribou/Topology/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 92081bf..45e8474 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -532,7 +532,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                caribou_assert(indices[i] < static_cast<IntegerType>(number_of_nodes()));
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From b64142dae4ad2d29e65cd7c01c99a30f4dce7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 11/63] fix: unset components of the 3D view of 1D and 2D mesh
 nodes

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 45e8474..8217a3f 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From 8de06e08e713f5cc6f22c8f09162669efcb3919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 12/63] fix: copied and moved domains used the buffer of the
 original and an unset mesh pointer

---
 src/Caribou/Topology/Domain.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..d2114ee 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -97,7 +97,13 @@ namespace caribou::topology {
 
         /*! Copy constructor */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {
+            // When the indices are stored internally, map the buffer of this instance instead of the other's one
+            if (other.p_elements.data() == other.p_buffer.data()) {
+                using MapType = decltype(p_elements);
+                new (&p_elements) MapType (p_buffer.data(), p_buffer.rows(), p_buffer.cols(), {p_buffer.cols(), 1});
+            }
+        }
 
         /*! Move constructor */
         Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
@@ -243,6 +249,7 @@ namespace caribou::topology {
         {
             // enable ADL
             using std::swap;
+            swap(first.p_mesh, second.p_mesh);
             swap(first.p_buffer, second.p_buffer);
 
             // Map isn't swappable, we need to do it manually using placement new operators
@@ -254,7 +261,8 @@ namespace caribou::topology {
 
         /// Pointer to the associated Mesh. This Domain instance should be part of one Mesh, where the latter could
         /// contains many Domain instances of different or same element types.
-        const BaseMesh * p_mesh;
+        /// Copies of a domain are orphan (they are not part of any Mesh) until they are added to one.
+        const BaseMesh * p_mesh = nullptr;
 
         /// Buffer containing the element indices. This buffer is used when the domain is constructed by copying
         /// an array of element indices. If the domain is constructed from a mapped buffer (ie, the indices are
-- 
2.43.0


From 9e77349df7eb6a7c683067fbe7fa8310b3fcf6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:25 +0000
Subject: [PATCH 13/63] fix: domains of copied, moved, assigned and swapped
 meshes stayed attached to the original mesh

---
 src/Caribou/Topology/BaseDomain.h |  2 +-
 src/Caribou/Topology/Domain.h     |  8 +++++++-
 src/Caribou/Topology/Mesh.h       | 10 ++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/BaseDomain.h b/src/Caribou/Topology/BaseDomain.h
index eeea1ad..3179e4b 100644
--- a/src/Caribou/Topology/BaseDomain.h
+++ b/src/Caribou/Topology/BaseDomain.h
@@ -48,7 +48,7 @@ namespace caribou::topology {
         [[nodiscard]] virtual BaseDomain * clone() const = 0;
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its current one if the given Mesh is null.
          */
         virtual void attach_to(const BaseMesh * mesh) = 0;
     };
diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index d2114ee..5aa52b8 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -226,7 +226,7 @@ namespace caribou::topology {
             : p_mesh(mesh), p_buffer(), p_elements(data, number_of_elements, number_of_nodes_per_elements, {outer_stride, inner_stride}) {}
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * \copydoc caribou::topology::BaseDomain::attach_to
          */
         inline void attach_to(const BaseMesh * mesh) override {
             // Trying to attach the same mesh as the one which is already attached to this domain
@@ -234,6 +234,12 @@ namespace caribou::topology {
                 return;
             }
 
+            // Detach the domain from its mesh
+            if (mesh == nullptr) {
+                p_mesh = nullptr;
+                return;
+            }
+
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
             if (p_mesh != nullptr)  {
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 8217a3f..0e46e94 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -226,6 +226,8 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
                 const std::string & domain_name = p.first;
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
+                p_domains.back().second->attach_to(nullptr);
+                p_domains.back().second->attach_to(this);
             }
         }
 
@@ -606,6 +608,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains must follow the mesh in which they now reside
+            for (Mesh * mesh : {&first, &second}) {
+                for (auto & d : mesh->p_domains) {
+                    d.second->attach_to(nullptr);
+                    d.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From c4fd121a51e55a4b3d5d365d556e8522acbb79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:02 +0000
Subject: [PATCH 14/63] fix: generated names of unnamed domains could already
 be used in the mesh

---
 src/Caribou/Topology/Mesh.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 0e46e94..9fa4a8e 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -449,7 +449,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         inline auto add_domain(BaseDomain * domain) -> BaseDomain * override {
             std::ostringstream ss;
             ss << "domain_" << domain;
-            return add_domain(domain, ss.str());
+
+            // The address could have been used to name another domain (for example one that has been cloned)
+            std::string name = ss.str();
+            while (this->domain(name) != nullptr and this->domain(name) != domain) {
+                name += "_";
+            }
+
+            return add_domain(domain, name);
         }
 
         /*!
-- 
2.43.0


From 5ebf428a85a372c7a6a68c22b4fbfd1c341878d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:44 +0000
Subject: [PATCH 15/63] fix: points lying on the sides of distorted elements
 were found outside of the container domain

---
 src/Caribou/Topology/BarycentricContainer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/BarycentricContainer.h b/src/Caribou/Topology/BarycentricContainer.h
index aa38851..170c77d 100644
--- a/src/Caribou/Topology/BarycentricContainer.h
+++ b/src/Caribou/Topology/BarycentricContainer.h
@@ -125,7 +125,15 @@ public:
 
         for (const auto & element_index : candidate_element_indices) {
             const ContainerElement e = p_container_domain->element(element_index);
-            const LocalCoordinates local_coordinates = e.local_coordinates(p);
+            LocalCoordinates local_coordinates = e.local_coordinates(p);
+            if (not e.contains_local(local_coordinates, 1e-4)) {
+                continue;
+            }
+
+            // The default tolerance of the inverse mapping isn't sufficient to tell if a point lying close to the
+            // boundary of the element is inside. Restart from the first approximation to get a finer one.
+            using BaseElement = caribou::geometry::Element<ContainerElement>;
+            local_coordinates = e.BaseElement::local_coordinates(p, local_coordinates, 1e-5, 5);
             if (e.contains_local(local_coordinates)) {
                 // Found one, let's return it
                 return {static_cast<ElementIndex>(element_index), local_coordinates};
-- 
2.43.0


From fdd14b62cf53e27a77781a0277af428cd2d69a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:44 +0000
Subject: [PATCH 16/63] fix: embedded points were associated with elements for
 which the inverse mapping diverged

---
 src/Caribou/Topology/BarycentricContainer.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Caribou/Topology/BarycentricContainer.h b/src/Caribou/Topology/BarycentricContainer.h
index 170c77d..9597ccc 100644
--- a/src/Caribou/Topology/BarycentricContainer.h
+++ b/src/Caribou/Topology/BarycentricContainer.h
@@ -134,6 +134,17 @@ public:
             // boundary of the element is inside. Restart from the first approximation to get a finer one.
             using BaseElement = caribou::geometry::Element<ContainerElement>;
             local_coordinates = e.BaseElement::local_coordinates(p, local_coordinates, 1e-5, 5);
+
+            // Newton-Raphson can diverge when the point is outside of the element, in which case the local
+            // coordinates aren't those of the point (points outside of a lower dimension manifold are projected onto it).
+            if constexpr (ContainerElement::Dimension == ContainerElement::CanonicalDimension) {
+                const auto nodes = e.nodes();
+                const auto size = (nodes.colwise().maxCoeff() - nodes.colwise().minCoeff()).norm();
+                if (not ((p - e.world_coordinates(local_coordinates)).norm() <= 1e-5*size)) {
+                    continue;
+                }
+            }
+
             if (e.contains_local(local_coordinates)) {
                 // Found one, let's return it
                 return {static_cast<ElementIndex>(element_index), local_coordinates};
-- 
2.43.0


From eed3593fe2c6720ef4ef942385f5497a2bfd8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:54 +0000
Subject: [PATCH 17/63] fix: the move constructor of domains aborted on an
 invalid stride in debug builds

---
 src/Caribou/Topology/Domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 5aa52b8..f728d6a 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -106,7 +106,7 @@ namespace caribou::topology {
         }
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept : p_elements (nullptr, 0, other.p_elements.cols(), {other.p_elements.cols(), 1}) {
             swap(*this, other);
         }
 
-- 
2.43.0


From 4cdcf0599e4351c0bf575f39afd0fb03c8ffe400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:54 +0000
Subject: [PATCH 18/63] fix: Domain::element(id, positions) did not compile in
 debug builds

---
 src/Caribou/Topology/Domain.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index f728d6a..8ec12c5 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -308,10 +308,7 @@ namespace caribou::topology {
     template <typename Element, typename NodeIndex>
     template<typename EigenMatrix>
     inline auto Domain<Element, NodeIndex>::element(const UNSIGNED_INTEGER_TYPE & element_id, const Eigen::DenseBase<EigenMatrix> & positions) const -> Element {
-        caribou_assert(element_id < number_of_elements() &&
-                       "Trying to get the element #"+std::to_string(element_id) + ", but the domain only has " +
-                       std::to_string(number_of_elements()) + " elements."
-        );
+        caribou_assert(element_id < number_of_elements() and "Trying to get an element that does not exists.");
 
         using NodeMatrix = typename geometry::Element<Element>::template Matrix<geometry::traits<Element>::NumberOfNodesAtCompileTime, Dimension>;
         NodeMatrix node_positions;
-- 
2.43.0


From 6a304036abc293b6422d1df38114a29e7fac6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 19/63] fix: reading a mesh file without any points in 1D or 2D
 crashed

---
 src/Caribou/Topology/IO/VTKReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..ea5d35f 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -232,10 +232,10 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
 {
     // Find the good axes (only for dimensions 1 and 2)
     std::array<UNSIGNED_INTEGER_TYPE, Dimension> axes {};
-    if (Dimension == 3) {
-      axes[0] = 0;
-      axes[1] = 1;
-      axes[2] = 2;
+    if (Dimension == 3 or number_of_points == 0) {
+      for (std::size_t axis = 0; axis < Dimension; ++axis) {
+          axes[axis] = axis;
+      }
     } else {
         double * v = input_points->GetPoint(0);
         std::bitset<3> is_all_the_same(0b111); // Set all to '1' at first
-- 
2.43.0


From 60cbecfb2a5c25a1d5ebb17860d18f6524df52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 20/63] fix: RectangularHexahedron built from nodes in Python
 was a general hexahedron

---
 src/Caribou/Python/Geometry/RectangularHexahedron.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
index bf90499..68624b9 100644
--- a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
+++ b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
@@ -103,8 +103,8 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n6, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n7,
                                              const caribou::bindings::Order & order) {
         return (order == caribou::bindings::Order::Linear)
-               ? py::cast(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7))
-               : py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7));
+               ? py::cast(RectangularHexahedron<Linear>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)))
+               : py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("order") = caribou::bindings::Order::Linear);
 
     // Quadratic creation
@@ -122,7 +122,7 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n14, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n15,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n16, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n17,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n18, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n19) {
-        return py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19));
+        return py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("n8"), py::arg("n9"),
        py::arg("n10"), py::arg("n11"), py::arg("n12"), py::arg("n13"), py::arg("n14"), py::arg("n15"), py::arg("n16"), py::arg("n17"), py::arg("n18"), py::arg("n19"));
 
-- 
2.43.0


From 60473685e6734c8f1bc5d569bab10a9440d3fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 21/63] fix: Python grids could not be queried by node
 coordinates or world position

---
 src/Caribou/Python/Topology/Grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Caribou/Python/Topology/Grid.cpp b/src/Caribou/Python/Topology/Grid.cpp
index 73ca02c..ef9b5e0 100644
--- a/src/Caribou/Python/Topology/Grid.cpp
+++ b/src/Caribou/Python/Topology/Grid.cpp
@@ -49,8 +49,12 @@ void declare_basegrid(py::module &m) {
     o1.def("node_index_at", &BaseDimensionalGrid::node_index_at, py::arg("node_coordinates"));
     o1.def("node_coordinates_at", &BaseDimensionalGrid::node_coordinates_at, py::arg("node_index"));
     o1.def("node", &BaseDimensionalGrid::node, py::arg("node_index"));
+    o1.def("node", &BaseGrid::node, py::arg("node_coordinates")); // Otherwise hidden by the previous definition
     o1.def("cell_index_at", &BaseDimensionalGrid::cell_index_at, py::arg("cell_coordinates"));
     o1.def("cell_coordinates_at", &BaseDimensionalGrid::cell_coordinates_at, py::arg("cell_index"));
+    // The following two are otherwise hidden by the previous definition
+    o1.def("cell_coordinates_at", [](const BaseGrid & g, const WorldCoordinates & c) {return g.cell_coordinates_at(c);}, py::arg("world_coordinates"));
+    o1.def("cell_coordinates_at", [](const BaseGrid & g, const WorldCoordinates & c, bool t) {return g.cell_coordinates_at(c, t);}, py::arg("world_coordinates"), py::arg("test_for_boundary"));
 }
 
 template <size_t Dim>
-- 
2.43.0


From a6abf11544ba0f6a5a9c5620cb35354d95c7a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 22/63] fix: Python objects obtained from a mesh did not keep
 it alive

---
 src/Caribou/Python/Topology/BarycentricContainer.h |  2 +-
 src/Caribou/Python/Topology/Domain.h               | 10 +++++-----
 src/Caribou/Python/Topology/Mesh.cpp               |  8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Caribou/Python/Topology/BarycentricContainer.h b/src/Caribou/Python/Topology/BarycentricContainer.h
index fd9b00c..cf1369a 100644
--- a/src/Caribou/Python/Topology/BarycentricContainer.h
+++ b/src/Caribou/Python/Topology/BarycentricContainer.h
@@ -63,7 +63,7 @@ void declare_barycentric_container(py::class_<Domain, Holder> & m) {
 
     m.def("embed", [](const Domain & domain, const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> & embedded_points) {
        return domain.embed(embedded_points);
-    }, py::arg("embedded_points"));
+    }, py::arg("embedded_points"), py::keep_alive<0, 1>());
 }
 
 } // namespace caribou::topology::bindings
\ No newline at end of file
diff --git a/src/Caribou/Python/Topology/Domain.h b/src/Caribou/Python/Topology/Domain.h
index 1f5c981..9e9df2d 100644
--- a/src/Caribou/Python/Topology/Domain.h
+++ b/src/Caribou/Python/Topology/Domain.h
@@ -21,7 +21,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         return domain.element(element_id);
     }, py::arg("element_id"));
 
-    c.def("element_indices", &D::element_indices, py::arg("index"));
+    c.def("element_indices", &D::element_indices, py::arg("index"), py::return_value_policy::reference_internal);
     c.def("mesh", &D::mesh, py::return_value_policy::reference);
 
     // Mesh's add_domain binding for Domain<Element, NodeIndex> type
@@ -29,12 +29,12 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -48,7 +48,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -62,7 +62,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     declare_barycentric_container(c);
 }
diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 6a27793..ffd6ef8 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -21,11 +21,11 @@ void declare_mesh(py::module & m) {
     c.def("number_of_domains", &M::number_of_domains);
     c.def("number_of_nodes", &M::number_of_nodes);
 
-    c.def("domains", &M::domains);
-    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);});
-    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);});
+    c.def("domains", &M::domains, py::return_value_policy::reference_internal);
+    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::return_value_policy::reference_internal);
+    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::return_value_policy::reference_internal);
 
-    c.def("position", &M::position);
+    c.def("position", &M::position, py::return_value_policy::reference_internal);
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
         return m.positions(indices);
     }, py::arg("indices").noconvert());
-- 
2.43.0


From 159813c616a2a99d44d57341799020f54980a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 23/63] fix: asking a Python mesh for an unknown domain raised
 a type error

---
 src/Caribou/Python/Topology/Domain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Caribou/Python/Topology/Domain.cpp b/src/Caribou/Python/Topology/Domain.cpp
index 804e84a..4dd9224 100644
--- a/src/Caribou/Python/Topology/Domain.cpp
+++ b/src/Caribou/Python/Topology/Domain.cpp
@@ -56,6 +56,8 @@ void declare_domain(py::module &m) {
 }
 
 void create_domain(py::module &m) {
+    py::class_<BaseDomain, std::unique_ptr<BaseDomain, py::nodelete>> (m, "BaseDomain");
+
     declare_domain<1>(m); // 1D
     declare_domain<2>(m); // 2D
     declare_domain<3>(m); // 3D
-- 
2.43.0


From a5ff238a2abaa833cf7a1e98b8f46009db04d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 24/63] fix: a domain refused by a Python mesh was leaked

---
 src/Caribou/Python/Topology/Domain.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Caribou/Python/Topology/Domain.h b/src/Caribou/Python/Topology/Domain.h
index 9e9df2d..c3c126b 100644
--- a/src/Caribou/Python/Topology/Domain.h
+++ b/src/Caribou/Python/Topology/Domain.h
@@ -26,14 +26,14 @@ void declare_domain(pybind11::module & m, const std::string & name) {
 
     // Mesh's add_domain binding for Domain<Element, NodeIndex> type
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d, domain_name);
-        return d;
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get(), domain_name);
+        return d.release();
     }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d);
-        return d;
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get());
+        return d.release();
     }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
@@ -45,9 +45,9 @@ void declare_domain(pybind11::module & m, const std::string & name) {
             throw py::key_error(ss.str());
         }
 
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d, domain_name);
-        return d;
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get(), domain_name);
+        return d.release();
     }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
@@ -59,9 +59,9 @@ void declare_domain(pybind11::module & m, const std::string & name) {
             throw py::key_error(ss.str());
         }
 
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d);
-        return d;
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get());
+        return d.release();
     }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     declare_barycentric_container(c);
-- 
2.43.0


From 6230a96c9eff1b2959d72bb72dcd37f1d420c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:04 +0000
Subject: [PATCH 25/63] fix: forcefields on a SOFA topology took the current
 positions for the rest positions

---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 2aaeac1..68845ad 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -89,7 +89,7 @@ void CaribouForcefield<Element>::init() {
             // Initialize a new caribou topology from the SOFA topology
             p_topology = sofa::core::objectmodel::New<SofaCaribou::topology::CaribouTopology<Element>>();
             p_topology->findData("indices")->setParent(this->get_indices_from(sofa_topology));
-            p_topology->findData("position")->setParent(this->getMState()->findData("position"));
+            p_topology->findData("position")->setParent(this->getMState()->findData("rest_position"));
             p_topology->init();
         } else {
             // A Caribou topology already exists in the scene
-- 
2.43.0


From 682f8ca91c625eefea80550bc539af5afc1332d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 26/63] fix: resetting a TractionForcefield lost its nodal
 forces and its constant load

---
 src/SofaCaribou/Forcefield/TractionForcefield.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index cdb2845..d8feeca 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -81,8 +81,13 @@ void TractionForcefield<Element>::reset()
     sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
 
     nodal_forces.clear();
+    nodal_forces.resize(this->getMState()->readRestPositions().size());
     d_total_load.setValue(0.);
     m_current_traction = Deriv();
+
+    // If all the load is applied at once, it must also be there for the first time step following a reset
+    if (m_traction_is_constant)
+        increment_load(d_traction.getValue());
 }
 
 template <typename Element>
-- 
2.43.0


From 960947ead11b02998b5eadc1427872694fe91652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 27/63] fix: a sparse matrix wrapped with its content lost it
 at the first compression

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..bd09a12 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -460,6 +460,12 @@ private:
      *        if the entries to be added were zero before hand.
      */
     void initialize() {
+        // The matrix given to the constructor may already contain some entries
+        for (Eigen::Index outer_id = 0; outer_id < p_eigen_matrix.outerSize(); ++outer_id) {
+            for (typename EigenType::InnerIterator it(p_eigen_matrix, outer_id); it; ++it) {
+                p_triplets.emplace_back(it.row(), it.col(), it.value());
+            }
+        }
         p_eigen_matrix.setFromTriplets(p_triplets.begin(), p_triplets.end());
         p_triplets.clear();
         p_initialized = true;
-- 
2.43.0


From 589910c040428dbca8a6309f4385491504147264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 28/63] fix: clearing a row or column of a sparse matrix
 without any entry wrote to a null pointer

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index bd09a12..2d7b006 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -300,7 +300,7 @@ public:
         if constexpr (EigenType::IsRowMajor) {
             const auto & start = p_eigen_matrix.outerIndexPtr()[row_id];
             const auto & end   = p_eigen_matrix.outerIndexPtr()[row_id+1];
-            std::memset(&(p_eigen_matrix.data().valuePtr()[start]), static_cast<int>(0), (end-start)*sizeof(Scalar));
+            std::fill_n(p_eigen_matrix.valuePtr() + start, end-start, static_cast<Scalar>(0));
         } else {
             for (int col_id=0; col_id<p_eigen_matrix.outerSize(); ++col_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[col_id];
@@ -324,7 +324,7 @@ public:
         if constexpr (EigenType::IsRowMajor) {
             const auto & start = p_eigen_matrix.outerIndexPtr()[imin];
             const auto & end   = p_eigen_matrix.outerIndexPtr()[imax+1];
-            std::memset(&(p_eigen_matrix.data().valuePtr()[start]), static_cast<int>(0), (end-start)*sizeof(Scalar));
+            std::fill_n(p_eigen_matrix.valuePtr() + start, end-start, static_cast<Scalar>(0));
         } else {
             for (int col_id=0; col_id<p_eigen_matrix.outerSize(); ++col_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[col_id];
@@ -352,7 +352,7 @@ public:
         if constexpr (not EigenType::IsRowMajor) {
             const auto & start = p_eigen_matrix.outerIndexPtr()[col_id];
             const auto & end   = p_eigen_matrix.outerIndexPtr()[col_id+1];
-            std::memset(&(p_eigen_matrix.data().valuePtr()[start]), static_cast<int>(0), (end-start)*sizeof(Scalar));
+            std::fill_n(p_eigen_matrix.valuePtr() + start, end-start, static_cast<Scalar>(0));
         } else {
             for (int row_id=0; row_id<p_eigen_matrix.outerSize(); ++row_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[row_id];
@@ -376,7 +376,7 @@ public:
         if constexpr (not EigenType::IsRowMajor) {
             const auto & start = p_eigen_matrix.outerIndexPtr()[imin];
             const auto & end   = p_eigen_matrix.outerIndexPtr()[imax+1];
-            std::memset(&(p_eigen_matrix.data().valuePtr()[start]), static_cast<int>(0), (end-start)*sizeof(Scalar));
+            std::fill_n(p_eigen_matrix.valuePtr() + start, end-start, static_cast<Scalar>(0));
         } else {
             for (int row_id=0; row_id<p_eigen_matrix.outerSize(); ++row_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[row_id];
@@ -404,7 +404,7 @@ public:
         // Clear the complete inner vector i (the row i or column i if it is in row major or column major respectively)
         const auto & start = p_eigen_matrix.outerIndexPtr()[i];
         const auto & end   = p_eigen_matrix.outerIndexPtr()[i+1];
-        std::memset(&(p_eigen_matrix.data().valuePtr()[start]), static_cast<int>(0), (end-start)*sizeof(Scalar));
+        std::fill_n(p_eigen_matrix.valuePtr() + start, end-start, static_cast<Scalar>(0));
 
         // Next, to clear the ith inner coefficients of each row in row-major (each column in column-major)
         if (symmetric() and p_eigen_matrix.rows() == p_eigen_matrix.cols()) {
-- 
2.43.0


From b279ae7d0edce205e68b55fd45cf27c36a447712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 29/63] fix: clearing rows and columns of an uncompressed
 sparse matrix missed some entries

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index 2d7b006..c4eafb3 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -304,7 +304,7 @@ public:
         } else {
             for (int col_id=0; col_id<p_eigen_matrix.outerSize(); ++col_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[col_id];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[col_id+1];
+                const auto end     = inner_end(col_id);
                 const auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(row_id));
                 if ((id<end) && (p_eigen_matrix.data().index(id)==row_id)) {
                     p_eigen_matrix.data().value(id) =  static_cast<const Scalar &>(0);
@@ -328,7 +328,7 @@ public:
         } else {
             for (int col_id=0; col_id<p_eigen_matrix.outerSize(); ++col_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[col_id];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[col_id+1];
+                const auto end     = inner_end(col_id);
                 auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(imin));
                 for (;id<end;++id) {
                     if (imin <= p_eigen_matrix.data().index(id) and p_eigen_matrix.data().index(id) <= imax) {
@@ -356,7 +356,7 @@ public:
         } else {
             for (int row_id=0; row_id<p_eigen_matrix.outerSize(); ++row_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[row_id];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[row_id+1];
+                const auto end     = inner_end(row_id);
                 const auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(col_id));
                 if ((id<end) && (p_eigen_matrix.data().index(id)==col_id)) {
                     p_eigen_matrix.data().value(id) =  static_cast<const Scalar &>(0);
@@ -380,7 +380,7 @@ public:
         } else {
             for (int row_id=0; row_id<p_eigen_matrix.outerSize(); ++row_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[row_id];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[row_id+1];
+                const auto end     = inner_end(row_id);
                 auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(imin));
                 for (;id<end;++id) {
                     if (imin <= p_eigen_matrix.data().index(id) and p_eigen_matrix.data().index(id) <= imax) {
@@ -414,7 +414,7 @@ public:
             for (typename EigenType::InnerIterator it(p_eigen_matrix, i); it; ++it) {
                 const auto inner_index = EigenType::IsRowMajor ? it.col() : it.row();
                 const auto & start = p_eigen_matrix.outerIndexPtr()[inner_index];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[inner_index+1];
+                const auto end     = inner_end(inner_index);
                 const auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(i));
                 if ((id<end) && (p_eigen_matrix.data().index(id)==i)) {
                     p_eigen_matrix.data().value(id) =  static_cast<const Scalar &>(0);
@@ -423,7 +423,7 @@ public:
         } else {
             for (int outer_id=0; outer_id<p_eigen_matrix.outerSize(); ++outer_id) {
                 const auto & start = p_eigen_matrix.outerIndexPtr()[outer_id];
-                const auto & end   = p_eigen_matrix.outerIndexPtr()[outer_id+1];
+                const auto end     = inner_end(outer_id);
                 const auto id = p_eigen_matrix.data().searchLowerIndex(start, end, static_cast<StorageIndex>(i));
                 if ((id<end) && (p_eigen_matrix.data().index(id)==i)) {
                     p_eigen_matrix.data().value(id) =  static_cast<const Scalar &>(0);
@@ -454,6 +454,16 @@ private:
         }
     }
 
+    /**
+     * @brief Position following the last entry of an inner vector (a row in row-major, a column in column-major). When
+     *        the matrix isn't compressed, an inner vector can be followed by some unused space.
+     */
+    inline auto inner_end(Eigen::Index outer_id) const -> typename EigenType::StorageIndex {
+        return p_eigen_matrix.isCompressed()
+            ? p_eigen_matrix.outerIndexPtr()[outer_id+1]
+            : p_eigen_matrix.outerIndexPtr()[outer_id] + p_eigen_matrix.innerNonZeroPtr()[outer_id];
+    }
+
     /**
      * @brief initialize the matrix with the accumulated triplets. The resulting matrix will be
      *        compressed. Once this is done, the operation add and addblock will be much slower
-- 
2.43.0


From 0541142842f8e2744f83b8aa7e1adf838a30de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 30/63] fix: the Eigen solvers reused the pattern analysis of a
 different matrix of the same size

---
 src/SofaCaribou/Solver/EigenSolver.inl | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index 6632435..1cdb912 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -123,20 +123,15 @@ void EigenSolver<EigenMatrix_t>::setSystemMBKMatrix(const sofa::core::Mechanical
     p_mechanical_params = *mparams;
 
     // Step 1. Assemble the system matrix
-    auto previous_dimension = p_A.rowSize();
     p_accessor = assemble(mparams);
-    auto current_dimension = p_A.rowSize();
-
-    // Step 2. Let the solver analyse the matrix
-    bool matrix_shape_has_changed = previous_dimension != current_dimension;
-    if (matrix_shape_has_changed) {
-        Timer::stepBegin("MatrixAnalysis");
-        if (not this->analyze_pattern()) {
-            msg_error() << "Failed to analyse the system matrix pattern";
-        }
-        Timer::stepEnd("MatrixAnalysis");
 
+    // Step 2. Let the solver analyse the matrix. Two matrices of the same dimensions can have different sparsity
+    //         patterns, hence the analysis of the previous matrix cannot be reused here.
+    Timer::stepBegin("MatrixAnalysis");
+    if (not this->analyze_pattern()) {
+        msg_error() << "Failed to analyse the system matrix pattern";
     }
+    Timer::stepEnd("MatrixAnalysis");
 
     // Step 5. Factorize the system matrix
     Timer::stepBegin("MatrixFactorization");
-- 
2.43.0


From 8d44df8484be6c21d720acda4cb14fe66c27cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 31/63] fix: LUSolver read the unset status of SparseLU after
 the pattern analysis

---
 src/SofaCaribou/Solver/LUSolver.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Solver/LUSolver.inl b/src/SofaCaribou/Solver/LUSolver.inl
index 77bb85d..3463751 100644
--- a/src/SofaCaribou/Solver/LUSolver.inl
+++ b/src/SofaCaribou/Solver/LUSolver.inl
@@ -50,11 +50,15 @@ bool LUSolver<EigenSolver_t>::analyze_pattern() {
 
     if constexpr (solver_traits<EigenSolver_t>::is_eigen()) {
         p_solver.isSymmetric(symmetric());
-    }
+        p_solver.analyzePattern(A_->matrix());
 
-    p_solver.analyzePattern(A_->matrix());
+        // The analysis done by Eigen's SparseLU cannot fail, and its status is only set by the factorization.
+        return true;
+    } else {
+        p_solver.analyzePattern(A_->matrix());
 
-    return (p_solver.info() == Eigen::Success);
+        return (p_solver.info() == Eigen::Success);
+    }
 }
 
 template<class EigenSolver_t>
-- 
2.43.0


From 70bc7dcd172a33089d792ff6863dcce530806668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 32/63] fix: the preconditioned CG reported a failure for
 already solved systems

---
 src/SofaCaribou/Solver/ConjugateGradientSolver.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
index fe606d5..d94f43e 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
@@ -324,6 +324,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (b_norm_2 < EPSILON) {
         msg_info() << "Right-hand side of the system is zero, hence x = 0.";
         x.setZero();
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
@@ -339,6 +340,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (r_norm_2 < threshold) {
         msg_info() << "The linear system has already reached an equilibrium state";
         msg_info() << "|r|/|b| = " << sqrt(r_norm_2/b_norm_2) << ", threshold = " << residual_tolerance_threshold;
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
-- 
2.43.0


From ba709d065f027d4922e8a957aa008f38b1720baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 33/63] fix: ConjugateGradientSolver read the unset status of
 the incomplete LU

---
 src/SofaCaribou/Solver/ConjugateGradientSolver.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
index d94f43e..39dcb7f 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
@@ -424,8 +424,8 @@ bool ConjugateGradientSolver<EigenMatrix_t>::analyze_pattern() {
         success = p_ichol.info() == Eigen::Success;
 #endif
     } else if (preconditioning_method == PreconditioningMethod::IncompleteLU) {
+        // The analysis cannot fail, and the status of the incomplete LU is only set by its factorization.
         p_iLU.analyzePattern(A_->matrix());
-        success = p_iLU.info() == Eigen::Success;
     }
 
     return success;
-- 
2.43.0


From 9ff3d968816c3126674119bb716a7f9ad284a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 34/63] fix: a system whose factorization failed was solved
 anyway

---
 src/SofaCaribou/Solver/EigenSolver.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index 1cdb912..2e7160c 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -190,7 +190,7 @@ void EigenSolver<EigenMatrix_t>::solveSystem() {
     sofa::simulation::common::MechanicalOperations mop( &p_mechanical_params, this->getContext() );
 
     Timer::stepBegin("EigenSolver::solve");
-    bool success = this->solve(&p_b, &p_x);
+    bool success = p_A_is_factorized and this->solve(&p_b, &p_x);
     if (success) {
         // Copy the solution into the mechanical objects of the current context sub-graph.
         mop.baseVector2MultiVector(&p_x, p_x_id, &p_accessor);
-- 
2.43.0


From 0623d95dde5a984ae672ecf134b3fd164501715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 35/63] fix: the first residual of the backward Euler was not
 evaluated at its prediction

---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 8 ++++++++
 src/SofaCaribou/Ode/NewtonRaphsonSolver.h      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index f88bb70..580b805 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -67,6 +67,14 @@ void BackwardEulerODESolver::solve(const sofa::core::ExecParams *params, SReal d
     vop.v_realloc(p_a_id, false /* interactionForceField */, true /* propagate [to mapped MO] */);
     vop.v_clear(p_a_id);
 
+    // The Newton iterations start with a null acceleration, hence the first prediction of the position is x_0 + h v_0
+    if (has_valid_linear_solver()) {
+        mechanical_parameters.setX(x_id);
+        mechanical_parameters.setV(v_id);
+        vop.v_op(x_id, p_previous_x_id, p_previous_v_id, dt);
+        MechanicalPropagateOnlyPositionAndVelocityVisitor(&mechanical_parameters).execute(this->getContext());
+    }
+
     // Let the NR do its job
     NewtonRaphsonSolver::solve(params, dt, x_id, v_id);
 }
diff --git a/src/SofaCaribou/Ode/NewtonRaphsonSolver.h b/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
index 025d6f7..9841d57 100644
--- a/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
+++ b/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
@@ -164,10 +164,14 @@ private:
                                               sofa::core::MultiVecDerivId & v_id,
                                               sofa::core::MultiVecDerivId & dx_id) = 0;
 
+protected:
+
     /** Check that the linked linear solver is not null and that it implements the SofaCaribou::solver::LinearSolver interface */
     CARIBOU_API
     bool has_valid_linear_solver () const;
 
+private:
+
     /// INPUTS
     Data<unsigned> d_newton_iterations;
     Data<double> d_correction_tolerance_threshold;
-- 
2.43.0


From ffdedf969e3032ac2d49cf1b9fbaeffe7c9f9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:45 +0000
Subject: [PATCH 36/63] fix: the backward Euler accumulated the forces of
 mapped objects several times

---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index 580b805..b1e96a4 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -129,6 +129,11 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-1);
 
+    // Clear the forces of the mapped mechanical objects, they have already been accumulated into their parents
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id,
+                                true /* onlyMapped */)
+    .execute(this->getContext());
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
@@ -146,6 +151,11 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-h);
 
+    // Clear the forces of the mapped mechanical objects, they have already been accumulated into their parents
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id,
+                                true /* onlyMapped */)
+    .execute(this->getContext());
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
-- 
2.43.0


From 37de4aca18af811417b18d9c06a590e7a6fb09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 37/63] fix: the corotated elastic forces assumed rest shapes
 aligned with the axes

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 6 +++---
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 2a3633f..c3e3b1d 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -247,9 +247,9 @@ void HexahedronElasticForce::addForce(
 
         Rotation & R = current_rotation[hexa_id];
 
-        // Extract the hexahedron's frame
+        // Extract the rotation of the hexahedron's frame since its rest configuration
         if (corotated)
-            R = hexa.frame({0, 0, 0});
+            R = hexa.frame({0, 0, 0})*R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -260,7 +260,7 @@ void HexahedronElasticForce::addForce(
             const Vec3 r0 {x0[node_id][0], x0[node_id][1],  x0[node_id][2]};
             const Vec3 r  {x [node_id][0],  x [node_id][1], x [node_id][2]};
 
-            const Vec3 u = Rt*r - R0t*r0;
+            const Vec3 u = Rt*r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 8a41dc0..d384ec5 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -184,9 +184,9 @@ void TetrahedronElasticForce::addForce(
         Rotation &R = current_rotation[element_id];
 
 
-        // Extract the tetrahedron's frame
+        // Extract the rotation of the tetrahedron's frame since its rest configuration
         if (corotated)
-            R = tetra.frame();
+            R = tetra.frame()*R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -197,7 +197,7 @@ void TetrahedronElasticForce::addForce(
             const Vec3 r0{x0[node_id][0], x0[node_id][1], x0[node_id][2]};
             const Vec3 r  {x[node_id][0],  x[node_id][1],  x[node_id][2]};
 
-            const Vec3 u = Rt * r - R0t * r0;
+            const Vec3 u = Rt * r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
-- 
2.43.0


From dfd09d4280fc34057ef3fdb297c70cdc4159eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 38/63] fix: reinit of the hexahedral elastic force accumulated
 the quadrature nodes

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index c3e3b1d..da45e9d 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -166,6 +166,7 @@ void HexahedronElasticForce::reinit()
         // 2. At this point, we have all the gauss points of the hexa and their corrected weight.
         //    We now compute constant values required by the simulation for each of them
         auto &hexa_quadrature_nodes = p_quadrature_nodes[hexa_id];
+        hexa_quadrature_nodes.clear();
         for (const auto &gauss_point : gauss_points) {
             // Jacobian of the gauss node's transformation mapping from the elementary space to the world space
             const auto J = hexa.jacobian(gauss_point.first);
-- 
2.43.0


From 2e3974140626d2f4c7f0f7fbd68a09431b045ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 39/63] fix: reinit of the elastic forces kept the previous
 rotations

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 4 ++--
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index da45e9d..0c55e29 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -196,8 +196,8 @@ void HexahedronElasticForce::reinit()
 
     // Initialize the stiffness matrix of every hexahedrons
     p_stiffness_matrices.resize(topology->getNbHexahedra());
-    p_initial_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
-    p_current_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
+    p_initial_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
+    p_current_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
 
     // Initialize the initial frame of each hexahedron
     if (d_corotated.getValue()) {
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index d384ec5..c5dba7e 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -111,8 +111,8 @@ void TetrahedronElasticForce::reinit()
         }
     }
 
-    p_initial_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
-    p_current_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
+    p_initial_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
+    p_current_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
 
     // Initialize the initial frame of each tetrahedron
     if (d_corotated.getValue()) {
-- 
2.43.0


From 7a718e05804f645707d0ce34f0ccded8e775c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 40/63] fix: wrong, incomplete and stale sparse stiffness
 matrix of the hexahedral elastic force

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 0c55e29..b4ffa56 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -285,6 +285,12 @@ void HexahedronElasticForce::addForce(
         }
     }
     sofa::helper::AdvancedTimer::stepEnd("HexahedronElasticForce::addForce");
+
+    // The rotations have changed, hence the complete stiffness matrix too
+    if (corotated) {
+        K_is_up_to_date = false;
+        eigenvalues_are_up_to_date = false;
+    }
 }
 
 void HexahedronElasticForce::addDForce(
@@ -516,7 +522,7 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                 // Blocks on the diagonal
                 for (Eigen::Index i = 0; i < NumberOfNodes; ++i) {
                     const auto x = static_cast<int>(node_indices[static_cast<sofa::Index>(i)]*3);
-                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i,i) * Rt;
+                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i*3,i*3) * Rt;
                     for (int m = 0; m < 3; ++m) {
                         for (int n = 0; n < 3; ++n) {
                             triplets.emplace_back(x+m, x+n, Kii(m,n));
@@ -530,11 +536,12 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                         const auto x = static_cast<int>(node_indices[i]*3);
                         const auto y = static_cast<int>(node_indices[j]*3);
 
-                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i,j) * Rt;
+                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i*3,j*3) * Rt;
 
                         for (int m = 0; m < 3; ++m) {
                             for (int n = 0; n < 3; ++n) {
                                 triplets.emplace_back(x+m, y+n, Kij(m,n));
+                                triplets.emplace_back(y+n, x+m, Kij(m,n));
                             }
                         }
                     }
-- 
2.43.0


From cfbe12faacbd83587a5e77b36127b48db298bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 41/63] fix: stiffness assembly of elastic forces whose
 topology was rejected

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 7 +++++--
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index b4ffa56..d1c76b5 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -133,7 +133,7 @@ void HexahedronElasticForce::reinit()
         const auto & node_indices = topology->getHexahedron(hexa_id);
         for (sofa::Index j = 0; j < 8; ++j) {
             const auto & node_id = node_indices[j];
-            if (node_id > X.size()-1) {
+            if (node_id >= X.size()) {
                 msg_error() << "Some hexahedrons have node indices outside of the state's position vector. Make sure "
                                "that the mechanical object '" << state->getPathName() << "' contains the position of "
                                                                                          "every hexahedron nodes.";
@@ -358,6 +358,9 @@ void HexahedronElasticForce::addKToMatrix(sofa::defaulttype::BaseMatrix * matrix
     if (!topology)
         return;
 
+    if (p_stiffness_matrices.size() != topology->getNbHexahedra())
+        return;
+
     std::vector<Rotation> & current_rotation = p_current_rotation;
 
     sofa::helper::AdvancedTimer::stepBegin("HexahedronElasticForce::addKToMatrix");
@@ -505,7 +508,7 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
 
         auto *topology = d_topology_container.get();
 
-        if (topology) {
+        if (topology and p_stiffness_matrices.size() == topology->getNbHexahedra()) {
 
             const std::vector<Rotation> &current_rotation = p_current_rotation;
 
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index c5dba7e..867db85 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -102,7 +102,7 @@ void TetrahedronElasticForce::reinit()
         const auto & node_indices = topology->getTetrahedron(tetrahedron_id);
         for (sofa::Index j = 0; j < NumberOfNodes; ++j) {
             const auto & node_id = node_indices[j];
-            if (node_id > X.size()-1) {
+            if (node_id >= X.size()) {
                 msg_error() << "Some tetrahedrons have node indices outside of the state's position vector. Make sure "
                                "that the mechanical object '" << state->getPathName() << "' contains the position of "
                                                                                          "every tetrahedron nodes.";
@@ -291,6 +291,9 @@ void TetrahedronElasticForce::addKToMatrix(
     if (!topology)
         return;
 
+    if (p_stiffness_matrices.size() != topology->getNbTetrahedra())
+        return;
+
     std::vector<Rotation> & current_rotation = p_current_rotation;
 
     sofa::helper::AdvancedTimer::stepBegin("TetrahedronElasticForce::addKToMatrix");
-- 
2.43.0


From 5bb93a65e3bf1b44f4ae548f48c6bdb26f5003ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 42/63] fix: the bounding box of the elastic forces missed some
 minima

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 2 +-
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index d1c76b5..cff4861 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -602,7 +602,7 @@ void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onl
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 867db85..c9682e9 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -366,7 +366,7 @@ void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool on
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
-- 
2.43.0


From cfbad8c79dc965d20a4efeb04547c5105467f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 43/63] fix: null topology in the report of several topologies

---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 68845ad..9d54ce8 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -74,10 +74,10 @@ void CaribouForcefield<Element>::init() {
                 } else {
                     d_topology_container.set(sofa_compatible_containers[0]);
                 }
-            }
 
-            msg_info() << "Automatically found the topology '" << d_topology_container.get()->getPathName()
-                       << "'.";
+                msg_info() << "Automatically found the topology '" << d_topology_container.get()->getPathName()
+                           << "'.";
+            }
         }
     }
 
-- 
2.43.0


From 91cdbcc1409cf458df6876f861263bc1bec02dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 44/63] fix: the bounding box of the force fields missed some
 minima and overran 2D positions

---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 9d54ce8..5c0c422 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -117,12 +117,18 @@ void CaribouForcefield<Element>::computeBBox(const sofa::core::ExecParams *, boo
     Real maxBBox[3] = {min_real, min_real, min_real};
     Real minBBox[3] = {max_real, max_real, max_real};
     for (size_t i = 0; i < x.size(); i++) {
-        for (int c = 0; c < 3; c++) {
+        for (int c = 0; c < static_cast<int>(Dimension); c++) {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = static_cast<Real>(x[i][c]);
-            else if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
+            if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
         }
     }
 
+    // Lower dimensional states lie in the planes of the remaining axes
+    for (int c = static_cast<int>(Dimension); c < 3; c++) {
+        minBBox[c] = 0;
+        maxBBox[c] = 0;
+    }
+
     this->f_bbox.setValue(sofa::type::TBoundingBox<Real>(minBBox, maxBBox));
 }
 
-- 
2.43.0


From 8fd8c01908fd3f3788b74dc07bdb01206c3b1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 45/63] fix: null iso-surface in the report of several
 iso-surfaces

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index ab37f01..3d7cf05 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -99,7 +99,7 @@ void FictitiousGrid<DataTypes>::init() {
                 msg_warning() << "Multiple iso-surfaces were found in the context node. The first one, '"
                               << iso_surfaces[0]->getName()
                               << "' will be used. If this is not the one that was needed, please set the parameter '"
-                              << d_iso_surface->getPathName()
+                              << d_iso_surface.getName()
                               << "' with the path to the correct iso-surface to use.";
             }
             d_iso_surface.set(iso_surfaces[0]);
-- 
2.43.0


From 7d43bf3ea663ad2a1863539c9cec65c4f1016f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 46/63] fix: a fictitious grid was made without bounds

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 3d7cf05..6e20685 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -261,6 +261,7 @@ void FictitiousGrid<DataTypes>::init() {
         // Make sure we have a surface mesh and not an implicit field
         if (d_iso_surface.get()) {
             msg_error() << "No bounds (min and max corner) given to the fictitious grid.";
+            return;
         } else {
             const auto & surface_positions = d_surface_positions.getValue();
             static const SofaFloat max_real = std::numeric_limits<SofaFloat>::max();
-- 
2.43.0


From 61de3c48c4e89a2d01b8e772285ba92c882137c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 47/63] fix: fictitious grids of 3D iso-surfaces or made again
 used missing or stale cell data

---
 src/SofaCaribou/Topology/FictitiousGrid.cpp | 1 -
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.cpp b/src/SofaCaribou/Topology/FictitiousGrid.cpp
index c9c2b92..b12acb0 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.cpp
+++ b/src/SofaCaribou/Topology/FictitiousGrid.cpp
@@ -56,7 +56,6 @@ FictitiousGrid<Vec3Types>::tag_intersected_cells()
     int64_t time_to_find_bounding_boxes = 0;
     int64_t time_to_find_intersections = 0;
 
-    p_triangles_of_cell.resize(p_grid->number_of_cells());
     std::vector<UNSIGNED_INTEGER_TYPE> outside_triangles;
     for (std::size_t triangle_index = 0; triangle_index < triangles.size(); ++triangle_index) {
         const auto & triangle = triangles[triangle_index];
diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 6e20685..dbd7b5f 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -309,7 +309,8 @@ void FictitiousGrid<DataTypes>::create_grid()
         anchor_position, grid_n, grid_size
     );
 
-    p_cells_types.resize(p_grid->number_of_cells(), Type::Undefined);
+    p_cells_types.assign(p_grid->number_of_cells(), Type::Undefined);
+    p_triangles_of_cell.assign(p_grid->number_of_cells(), {});
     p_cells.resize(p_grid->number_of_cells());
 
     // Initialize the full regular grid quadtree (resp. octree) with 0 subdivisions
-- 
2.43.0


From a85aedc181109e24a0138eb15cf7ced7b1bb0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 48/63] fix: stack overflow for grid nodes lying on the
 iso-surface

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index dbd7b5f..b7a582b 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -384,7 +384,8 @@ FictitiousGrid<DataTypes>::tag_intersected_cells_from_implicit_surface()
     // Once we got the type of the nodes, we compute the type of their cells
     for (UNSIGNED_INTEGER_TYPE cell_index = 0; cell_index < number_of_cells; ++cell_index) {
         const auto node_indices = p_grid->node_indices_of(cell_index);
-        UNSIGNED_INTEGER_TYPE types[3] = {0, 0, 0}; // Number of nodes that are Inside, Outside and Boundary, respectively
+        // Number of nodes that are Inside, Outside and Boundary, indexed by the value of their type
+        UNSIGNED_INTEGER_TYPE types[(UNSIGNED_INTEGER_TYPE) Type::Boundary + 1] = {};
 
         for (const auto & node_index : node_indices) {
             types[(UNSIGNED_INTEGER_TYPE) node_types[node_index]]++;
-- 
2.43.0


From acf9d7cb28645cf03cff8ae7ea5efb268abf2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 49/63] fix: uncut cells of triangulated surfaces were left
 without type

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index b7a582b..da4b301 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -562,6 +562,13 @@ FictitiousGrid<DataTypes>::tag_inside_cells()
             cell->data->type = Type::Inside;
         }
     }
+
+    // The complete cells of the grid that are not subdivided take the type of their region
+    for (std::size_t i = 0; i < p_cells.size(); ++i) {
+        if (p_cells[i].is_leaf()) {
+            p_cells_types[i] = p_cells[i].data->type;
+        }
+    }
     msg_info() << "Computing the inside regions types in " << std::setprecision(3)
                << TOCK / 1000. / 1000.
                << " [ms]";
-- 
2.43.0


From cfda9ebccfc3dd2350234ff7ad171a9106f276b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 50/63] fix: type of points shared by cells of the same type

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index da4b301..48dd6f8 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -1029,6 +1029,9 @@ auto FictitiousGrid<DataTypes>::get_type_at(const WorldCoordinates & p) const ->
         } else if((types & static_cast<INTEGER_TYPE>(Type::Inside)) and (types & static_cast<INTEGER_TYPE>(Type::Outside))) {
             // If one of the cells around p is of type inside, and another one is of type outside, return the type boundary
             return Type::Boundary;
+        } else if (types == static_cast<INTEGER_TYPE>(Type::Inside) or types == static_cast<INTEGER_TYPE>(Type::Outside)) {
+            // All the cells around p have the same type
+            return static_cast<Type>(types);
         } else {
             // We cannot decide which type it is...this should never happen. Report it.
             std::ostringstream error;
-- 
2.43.0


From 09e0247a7ae64c1c0b584a87226209e1ab9a7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:58 +0000
Subject: [PATCH 51/63] fix: misplaced Gauss nodes of cells subdivided more
 than once

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 48dd6f8..e4de853 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -984,7 +984,7 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto child_elements = get_subcells_elements(e);
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < child_cells.size(); ++i) {
-                        const auto child_gauss_nodes = ref(child_elements[i], child_cells[i], l+1, ref);
+                        const auto child_gauss_nodes = ref(e, child_cells[i], l+1, ref);
                         for (const auto & child_gauss_node : child_gauss_nodes) {
                             gauss_nodes.emplace_back(child_elements[i].world_coordinates(child_gauss_node.first), child_gauss_node.second);
                         }
-- 
2.43.0


From 9c61dc06bdb7db98a592c260e2f4f3af0d32f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:58 +0000
Subject: [PATCH 52/63] fix: Gauss weights of 2D cells were attributed to the
 wrong Gauss nodes

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index e4de853..cd100d1 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -977,7 +977,14 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < CellElement::NumberOfGaussNodesAtCompileTime; ++i) {
                         const auto gauss_node = e.gauss_node(i);
-                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[i]);
+                        // Find the subcell in which the gauss node lies (the ordering of the gauss nodes may differ from the one of the subcells)
+                        UNSIGNED_INTEGER_TYPE subcell_index = 0;
+                        for (UNSIGNED_INTEGER_TYPE axis = 0; axis < Dimension; ++axis) {
+                            if (gauss_node.position[axis] > 0) {
+                                subcell_index += (UNSIGNED_INTEGER_TYPE) 1 << axis;
+                            }
+                        }
+                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[subcell_index]);
                         gauss_nodes.emplace_back(LocalCoordinates(gauss_node.position), gauss_node.weight*weight);
                     }
                 } else {
-- 
2.43.0


From 613a0bd0f45e6c90f3994035fe9e51e1bebf100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:58 +0000
Subject: [PATCH 53/63] fix: bounding box of grids whose corners are not
 ordered

---
 src/SofaCaribou/Topology/FictitiousGrid.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.h b/src/SofaCaribou/Topology/FictitiousGrid.h
index 74b97f4..e66c563 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.h
+++ b/src/SofaCaribou/Topology/FictitiousGrid.h
@@ -258,18 +258,14 @@ public:
         if( !onlyVisible )
             return;
 
-        if (Dimension == 2) {
-            const Float min[3] = {
-                d_min.getValue()[0], d_min.getValue()[1], -1
-            };
-            const Float max[3] = {
-                d_max.getValue()[0], d_max.getValue()[1], +1
-            };
-            this->f_bbox.setValue(sofa::type::TBoundingBox<Float>(min, max));
-        } else {
-            this->f_bbox.setValue(sofa::type::TBoundingBox<Float>(
-                d_min.getValue().array(),d_max.getValue().array()));
+        // The two corners can be given in any order
+        Float min[3] = {-1, -1, -1};
+        Float max[3] = {+1, +1, +1};
+        for (UNSIGNED_INTEGER_TYPE axis = 0; axis < Dimension; ++axis) {
+            min[axis] = std::min<Float>(d_min.getValue()[axis], d_max.getValue()[axis]);
+            max[axis] = std::max<Float>(d_min.getValue()[axis], d_max.getValue()[axis]);
         }
+        this->f_bbox.setValue(sofa::type::TBoundingBox<Float>(min, max));
     }
 
     std::string getTemplateName() const override {
-- 
2.43.0


From a2e015a812750bd480142932837cf206d04d842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:58 +0000
Subject: [PATCH 54/63] fix: iso_value of SOFA coordinates did not compile

---
 src/SofaCaribou/Topology/IsoSurface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/IsoSurface.h b/src/SofaCaribou/Topology/IsoSurface.h
index 5e5aca2..88ee158 100644
--- a/src/SofaCaribou/Topology/IsoSurface.h
+++ b/src/SofaCaribou/Topology/IsoSurface.h
@@ -22,8 +22,8 @@ public:
      * Get the iso value at the given world coordinates
      */
     inline Real iso_value(const Coord & x) const {
-        Eigen::Map<Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
-        iso_value(mapped_x);
+        const Eigen::Map<const Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
+        return iso_value(Eigen::Matrix<Real, Dimension, 1>(mapped_x));
     };
 
     /*!
-- 
2.43.0


From bb339e8696a28cd39379d2c1db8e29d422ebb08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:52 +0000
Subject: [PATCH 55/63] fix: the Python names of the linear and quadratic
 hexahedron hash grids were swapped

---
 src/Caribou/Python/Topology/HashGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Python/Topology/HashGrid.cpp b/src/Caribou/Python/Topology/HashGrid.cpp
index 563e92d..2ff208b 100644
--- a/src/Caribou/Python/Topology/HashGrid.cpp
+++ b/src/Caribou/Python/Topology/HashGrid.cpp
@@ -30,8 +30,8 @@ auto grid(py::module & m, const std::string & name) {
 void create_hashgrid(pybind11::module & m) {
     grid<Tetrahedron<Linear>>(m, "Tetrahedron4HashGrid");
     grid<Tetrahedron<Quadratic>>(m, "Tetrahedron10HashGrid");
-    grid<Hexahedron<Linear>>(m, "Hexahedron20HashGrid");
-    grid<Hexahedron<Quadratic>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Linear>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Quadratic>>(m, "Hexahedron20HashGrid");
     grid<RectangularHexahedron<Linear>>(m, "RectangularHexahedron8HashGrid");
     grid<RectangularHexahedron<Quadratic>>(m, "RectangularHexahedron20HashGrid");
 
-- 
2.43.0


From 7b8462a68423b7b44a552dc4bfdfe246fb846128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:52 +0000
Subject: [PATCH 56/63] fix: the system matrix pointer of the linear solvers
 was uninitialized before the first assembly

---
 src/SofaCaribou/Solver/EigenSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.h b/src/SofaCaribou/Solver/EigenSolver.h
index fa3f4d3..96702d1 100644
--- a/src/SofaCaribou/Solver/EigenSolver.h
+++ b/src/SofaCaribou/Solver/EigenSolver.h
@@ -180,7 +180,7 @@ private:
     /// Pointer to the global system matrix. For legacy ODE solvers, it points to
     /// p_A which is assembled by this linear solver. For Caribou's ODE solvers, it
     /// points to the system matrix assembled by the ODE itself.
-    const SofaCaribou::Algebra::EigenMatrix<Matrix> * p_A_ptr;
+    const SofaCaribou::Algebra::EigenMatrix<Matrix> * p_A_ptr = nullptr;
 
     /// Global system solution vector (usually filled with an initial guess or the previous solution)
     SofaCaribou::Algebra::EigenVector<Vector> p_x;
-- 
2.43.0


From 228990092d135949b6668d2a72d26620cb14dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:52 +0000
Subject: [PATCH 57/63] fix: the system matrix of the conjugate gradient could
 not be converted to Python

---
 src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h b/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
index 3626053..b644b0d 100644
--- a/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
+++ b/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
@@ -15,7 +15,11 @@ void bind_ConjugateGradientSolver(pybind11::module & m) {
     namespace py = pybind11;
     py::class_<ConjugateGradientSolver<EigenMatrix>, sofa::core::objectmodel::BaseObject, sofapython3::py_shared_ptr<ConjugateGradientSolver<EigenMatrix>>> c(m, "ConjugateGradientSolver");
 
-    c.def("A", &ConjugateGradientSolver<EigenMatrix>::A);
+    c.def("A", [](const ConjugateGradientSolver<EigenMatrix> & solver) -> py::object {
+        // The wrapper around the system matrix isn't known by Python, only the matrix it contains is.
+        const auto * A = solver.A();
+        return A ? py::cast(A->matrix()) : py::none();
+    });
 
     c.def("assemble", [](ConjugateGradientSolver<EigenMatrix> & solver, double m, double b, double k) {
         sofa::core::MechanicalParams mparams;
-- 
2.43.0


From d02c1bb534e449b02aa9cddaaef2e7285091ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:52 +0000
Subject: [PATCH 58/63] fix: the Gauss nodes and stiffness of a hexahedron out
 of range were read outside of the buffers

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.h b/src/SofaCaribou/Forcefield/HexahedronElasticForce.h
index ddde378..d0c0f70 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.h
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.h
@@ -164,11 +164,11 @@ public:
     }
 
     const std::vector<GaussNode> & gauss_nodes_of(std::size_t hexahedron_id) const {
-        return p_quadrature_nodes[hexahedron_id];
+        return p_quadrature_nodes.at(hexahedron_id);
     }
 
     const Matrix<24, 24> & stiffness_matrix_of(std::size_t hexahedron_id) const {
-        return p_stiffness_matrices[hexahedron_id];
+        return p_stiffness_matrices.at(hexahedron_id);
     }
 
     /** Get the complete tangent stiffness matrix */
-- 
2.43.0


From 1cf48fc3c518e94751d0afbf9b6d37f99991f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:53 +0000
Subject: [PATCH 59/63] fix: assembling the stiffness from Python with a wrong
 number of positions read outside of the array

---
 .../Python/Forcefield/HyperelasticForcefield.h        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h b/src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h
index e08741a..2fdfc2c 100644
--- a/src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h
+++ b/src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h
@@ -11,6 +11,15 @@
 
 namespace SofaCaribou::forcefield::python {
 
+/** The stiffness can only be assembled from the positions of all the nodes of the mechanical object. */
+template<typename Element>
+void check_number_of_nodes(const HyperelasticForcefield<Element> & self, const Eigen::Index & number_of_nodes) {
+    const auto * state = self.getMState();
+    if (not state or number_of_nodes != static_cast<Eigen::Index>(state->getSize())) {
+        throw pybind11::value_error("The position vector must contain one row per node of the mechanical object.");
+    }
+}
+
 template<typename Element>
 void bind_hyperelastic_forcefield(pybind11::module &m, const std::string & template_name) {
     pybind11::module::import("Sofa");
@@ -23,9 +32,11 @@ void bind_hyperelastic_forcefield(pybind11::module &m, const std::string & templ
     c.def("cond", &HyperelasticForcefield<Element>::cond);
     c.def("eigenvalues", &HyperelasticForcefield<Element>::eigenvalues);
     c.def("assemble_stiffness", [](HyperelasticForcefield<Element> & self, const Eigen::Matrix<double, Eigen::Dynamic, HyperelasticForcefield<Element>::Dimension, Eigen::RowMajor> & x) {
+        check_number_of_nodes(self, x.rows());
         self.assemble_stiffness(x);
     }, pybind11::arg("x").noconvert(true));
     c.def("assemble_stiffness", [](HyperelasticForcefield<Element> & self, const Eigen::Matrix<float, Eigen::Dynamic, HyperelasticForcefield<Element>::Dimension, Eigen::RowMajor> & x) {
+        check_number_of_nodes(self, x.rows());
         self.assemble_stiffness(x);
     }, pybind11::arg("x").noconvert(true));
 
-- 
2.43.0


From 2ffa17db9824bf9be15471e8f2c35dacae0b2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:53 +0000
Subject: [PATCH 60/63] fix: the domain of a topology could not be converted to
 Python and did not keep its topology alive

---
 src/SofaCaribou/Python/Topology/CaribouTopology.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Python/Topology/CaribouTopology.h b/src/SofaCaribou/Python/Topology/CaribouTopology.h
index b500e20..5174cfc 100644
--- a/src/SofaCaribou/Python/Topology/CaribouTopology.h
+++ b/src/SofaCaribou/Python/Topology/CaribouTopology.h
@@ -11,7 +11,12 @@ void bind_caribou_topology(pybind11::module &m) {
     const std::string name = "CaribouTopology<" + CaribouTopology<Element>::templateName() + ">";
     pybind11::class_<CaribouTopology<Element>, BaseObject, sofapython3::py_shared_ptr<CaribouTopology<Element>>> c(m, name.c_str());
 
-    c.def("domain", &CaribouTopology<Element>::domain);
+    c.def("domain", [](const CaribouTopology<Element> & self) {
+        // The domains and their elements are bound in the modules of Caribou
+        pybind11::module::import("Caribou.Geometry");
+        pybind11::module::import("Caribou.Topology");
+        return self.domain();
+    }, pybind11::return_value_policy::reference_internal);
 }
 
 void addCaribouTopology(pybind11::module &m);
-- 
2.43.0


From 95c2780a69982a00935acafa22946da8523e5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 61/63] fix: null mechanical state in the initialization of
 hyperelastic forces

---
 src/SofaCaribou/Forcefield/HyperelasticForcefield.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl b/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
index dd6f90d..0facfc0 100644
--- a/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
+++ b/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
@@ -390,6 +390,9 @@ void HyperelasticForcefield<Element>::initialize_elements()
 template <typename Element>
 void HyperelasticForcefield<Element>::assemble_stiffness()
 {
+    if (!this->mstate)
+        return;
+
     assemble_stiffness(*this->mstate->read (p_X_id.getId(this->mstate)));
 }
 
-- 
2.43.0


From a852d91a41e68e92c526df2d837a74000bfb874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 62/63] fix: null mechanical state in the initialization and
 the events of traction forces

---
 src/SofaCaribou/Forcefield/TractionForcefield.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index d8feeca..d4bffcb 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -51,6 +51,9 @@ void TractionForcefield<Element>::init()
 {
     Inherit::init();
 
+    if (!this->mstate)
+        return;
+
     // Initialization from the data inputs
     // @todo(jnbrunet2000@gmail.com) : this part should be moved to a real data update function
     const auto rest_positions = this->getMState()->readRestPositions();
@@ -75,6 +78,9 @@ void TractionForcefield<Element>::init()
 template <typename Element>
 void TractionForcefield<Element>::reset()
 {
+    if (!this->mstate)
+        return;
+
     // Do an increment on the first step of the simulation
     m_number_of_steps_since_last_increment = d_number_of_steps_before_increment.getValue();
 
@@ -138,6 +144,9 @@ void TractionForcefield<Element>::handleEvent(sofa::core::objectmodel::Event* ev
 template <typename Element>
 void TractionForcefield<Element>::increment_load(Deriv traction_increment_per_unit_area)
 {
+    if (!this->mstate)
+        return;
+
     sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
     sofa::helper::WriteAccessor<Data<Real>> current_load = d_total_load;
 
-- 
2.43.0


From ba9d550baf2efe2ba5c32cbc0772d1242c7d1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 63/63] fix: null mechanical state in the display and the
 stiffness of elastic forces

---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 5 +++--
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index cff4861..f8de7f8 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -495,7 +495,7 @@ void HexahedronElasticForce::compute_K()
 }
 
 const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce::K() {
-    if (not K_is_up_to_date) {
+    if (not K_is_up_to_date and this->mstate) {
         const sofa::helper::ReadAccessor<Data<VecCoord>> X = this->mstate->readRestPositions();
         const auto nDofs = X.size() * 3;
         p_K.resize(nDofs, nDofs);
@@ -590,6 +590,7 @@ HexahedronElasticForce::Real HexahedronElasticForce::cond()
 void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onlyVisible)
 {
     if( !onlyVisible ) return;
+    if( !this->mstate ) return;
 
     sofa::helper::ReadAccessor<Data<VecCoord>> x = this->mstate->read(sofa::core::VecCoordId::position());
 
@@ -612,7 +613,7 @@ void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onl
 void HexahedronElasticForce::draw(const sofa::core::visual::VisualParams* vparams)
 {
     auto * topology = d_topology_container.get();
-    if (!topology)
+    if (!topology or !this->mstate)
         return;
 
     if (!vparams->displayFlags().getShowForceFields())
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index c9682e9..5aca750 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -354,6 +354,7 @@ void TetrahedronElasticForce::addKToMatrix(
 void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onlyVisible)
 {
     if( !onlyVisible ) return;
+    if( !this->mstate ) return;
 
     sofa::helper::ReadAccessor<Data<VecCoord>> x = this->mstate->read(sofa::core::VecCoordId::position());
 
@@ -376,7 +377,7 @@ void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool on
 void TetrahedronElasticForce::draw(const sofa::core::visual::VisualParams* vparams)
 {
     auto *topology = d_topology_container.get();
-    if (!topology)
+    if (!topology or !this->mstate)
         return;
 
     if (!vparams->displayFlags().getShowForceFields())
-- 
2.43.0

