From 23df5ee7f0f5ae7ee7763e530b10e46aae53b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:17 +0000
Subject: [PATCH 01/15] fix: Mesh::remove_domain and Mesh::remove loop forever
 unless the domain is the first one

---
 src/Caribou/Topology/Mesh.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..3e3283f 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +471,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From c513f13725be877609b522b49d874854f899af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:17 +0000
Subject: [PATCH 02/15] fix: Mesh::node returns uninitialised y and z
 components for 1D and 2D meshes

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 3e3283f..9461e6c 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From a8540964c1fac5492a1177722a1648917bb1a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:50 +0000
Subject: [PATCH 03/15] fix: copies of a Domain alias the buffer of their
 source and copied or moved domains have an uninitialised mesh

---
 src/Caribou/Topology/Domain.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..9f8e0a8 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -96,11 +96,14 @@ namespace caribou::topology {
         Domain() = delete;
 
         /*! Copy constructor */
-        Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        Domain(const Domain & other)
+        : DomainStorage<Element>(other), p_mesh(nullptr), p_buffer(other.p_buffer),
+          p_elements(other.p_elements.data() == other.p_buffer.data() ? p_buffer.data() : other.p_elements.data(),
+                     other.p_elements.rows(), other.p_elements.cols(),
+                     {other.p_elements.outerStride(), other.p_elements.innerStride()}) {}
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {nullptr, 0, 0} {
             swap(*this, other);
         }
 
-- 
2.43.0


From 62a8f6420af70fd669911e315a42b0ebed25b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:50 +0000
Subject: [PATCH 04/15] fix: domains of copied, moved, assigned or swapped
 meshes point to the wrong mesh

---
 src/Caribou/Topology/Domain.h |  3 ++-
 src/Caribou/Topology/Mesh.h   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 9f8e0a8..41c7ef3 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -233,7 +233,8 @@ namespace caribou::topology {
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            // (attaching to no mesh at all detaches the domain from its current one)
+            if (mesh != nullptr and p_mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 9461e6c..a02afe3 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -224,8 +224,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             p_domains.reserve(other.p_domains.size());
             for (const auto & p : other.p_domains) {
                 const std::string & domain_name = p.first;
-                BaseDomain * cloned_domain_ptr  = p.second->clone();
-                p_domains.emplace_back(domain_name, cloned_domain_ptr);
+                std::unique_ptr<BaseDomain> cloned_domain_ptr (p.second->clone());
+                cloned_domain_ptr->attach_to(this);
+                p_domains.emplace_back(domain_name, std::move(cloned_domain_ptr));
             }
         }
 
@@ -602,6 +603,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains have moved from one mesh to the other
+            for (Mesh * mesh : {&first, &second}) {
+                for (auto & d : mesh->p_domains) {
+                    d.second->attach_to(nullptr);
+                    d.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From 9b194d56a68b5b3340d2ddf918d390174bcc9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:50 +0000
Subject: [PATCH 05/15] fix: a failed Mesh::add_domain leaks the new domain or
 leaves it attached to a mesh that does not hold it

---
 src/Caribou/Topology/Mesh.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index a02afe3..3fd06d7 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -340,10 +340,10 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
                 }
             }
 
-            auto domain_ptr = new Domain<Element, NodeIndex>(this, std::forward<Args>(args)...);
-            add_domain(domain_ptr, name);
+            auto domain_ptr = std::make_unique<Domain<Element, NodeIndex>>(this, std::forward<Args>(args)...);
+            add_domain(domain_ptr.get(), name);
 
-            return domain_ptr;
+            return domain_ptr.release();
         }
 
         /*!
@@ -360,10 +360,10 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         add_domain(Args ...args) {
             static_assert(geometry::traits<Element>::Dimension == Dimension, "The dimension of the mesh doesn't match the dimension of the element type.");
 
-            auto domain_ptr = new Domain<Element, NodeIndex>(this, std::forward<Args>(args)...);
-            add_domain(domain_ptr);
+            auto domain_ptr = std::make_unique<Domain<Element, NodeIndex>>(this, std::forward<Args>(args)...);
+            add_domain(domain_ptr.get());
 
-            return domain_ptr;
+            return domain_ptr.release();
         }
 
         /*!
@@ -403,10 +403,10 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         template<typename Element, typename... Args>
         inline auto add_domain(Args ...args) -> Domain<Element> * {
             static_assert(geometry::traits<Element>::Dimension == Dimension, "The dimension of the mesh doesn't match the dimension of the element type.");
-            auto domain_ptr = new Domain<Element>(this, std::forward<Args>(args)...);
+            auto domain_ptr = std::make_unique<Domain<Element>>(this, std::forward<Args>(args)...);
 
-            add_domain(domain_ptr);
-            return domain_ptr;
+            add_domain(domain_ptr.get());
+            return domain_ptr.release();
         }
 
         /*!
@@ -431,11 +431,10 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             } else if (domain->mesh() != nullptr) {
                 // The domain is already attached to another Mesh
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
-            } else {
-                domain->attach_to(this);
             }
 
             p_domains.emplace_back(name, domain);
+            domain->attach_to(this);
             return domain;
         }
 
-- 
2.43.0


From d07f2177d1029f78ee9b0e8db4cc2183013bfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:50 +0000
Subject: [PATCH 06/15] fix: attaching an existing domain to a mesh accepts a
 name that is already used

---
 src/Caribou/Topology/Mesh.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 3fd06d7..f13ae37 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -433,6 +433,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
+            for (const auto & d : p_domains) {
+                if (d.first == name) {
+                    throw std::domain_error(std::string("A domain with the name ") + name + " already exists.");
+                }
+            }
+
             p_domains.emplace_back(name, domain);
             domain->attach_to(this);
             return domain;
@@ -444,7 +450,16 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         inline auto add_domain(BaseDomain * domain) -> BaseDomain * override {
             std::ostringstream ss;
             ss << "domain_" << domain;
-            return add_domain(domain, ss.str());
+            std::string name = ss.str();
+
+            // The address of a destroyed domain can be reused: make sure that no other domain already has this name
+            using namespace std;
+            while (any_of(begin(p_domains), end(p_domains), [&](const auto & d) {
+                return d.first == name and d.second.get() != domain;
+            })) {
+                name += "_";
+            }
+            return add_domain(domain, name);
         }
 
         /*!
-- 
2.43.0


From cf904da1366e7cff94a942f8b1c71c543acab425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:50 +0000
Subject: [PATCH 07/15] fix: Grid::cells_around and Grid::cells_enclosing
 terminate the process when an allocation fails

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..ac5a218 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -139,7 +139,7 @@ struct BaseGrid
      * If it is on a face (3D), two cells are returned in 3D.
      */
     inline auto
-    cells_around(const WorldCoordinates & coordinates) const noexcept -> std::vector<CellIndex>
+    cells_around(const WorldCoordinates & coordinates) const -> std::vector<CellIndex>
     {
 
         struct CwiseRound {
@@ -315,7 +315,7 @@ struct BaseGrid
      * */
     template<typename ...WorldCoordinatesTypes>
     inline auto
-    cells_enclosing(const WorldCoordinates & first_position, WorldCoordinatesTypes && ... remaining_positions) const noexcept -> CellSet
+    cells_enclosing(const WorldCoordinates & first_position, WorldCoordinatesTypes && ... remaining_positions) const -> CellSet
     {
         std::array<WorldCoordinates , sizeof...(remaining_positions)+1> positions {{
             first_position, std::forward<WorldCoordinates>(remaining_positions)...
-- 
2.43.0


From c9e267ec0e6974e63c7ce811ec6310ed3716737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:25 +0000
Subject: [PATCH 08/15] fix: quadratic rectangular quads and hexahedra declare
 as many gauss nodes as they have

RectangularQuad<Quadratic> declared 8 gauss nodes for a table of 4 (reading
the last four is out of bounds), RectangularHexahedron<Quadratic> declared 4
for a table of 8.
---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 src/Caribou/Geometry/RectangularQuad.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..8319783 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From 707af0cf11fe50b52f92a85ea74de4d04895da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:06 +0000
Subject: [PATCH 09/15] fix: do not locate an embedded point in an element that
 does not contain it

The Newton iterations of local_coordinates() may not converge for a point
far from a distorted element and stop on arbitrary coordinates within it;
the point was then embedded in that element.
---
 src/Caribou/Topology/BarycentricContainer.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/BarycentricContainer.h b/src/Caribou/Topology/BarycentricContainer.h
index aa38851..f419671 100644
--- a/src/Caribou/Topology/BarycentricContainer.h
+++ b/src/Caribou/Topology/BarycentricContainer.h
@@ -126,7 +126,7 @@ public:
         for (const auto & element_index : candidate_element_indices) {
             const ContainerElement e = p_container_domain->element(element_index);
             const LocalCoordinates local_coordinates = e.local_coordinates(p);
-            if (e.contains_local(local_coordinates)) {
+            if (e.contains_local(local_coordinates) and maps_to(e, local_coordinates, p)) {
                 // Found one, let's return it
                 return {static_cast<ElementIndex>(element_index), local_coordinates};
             }
@@ -284,6 +284,25 @@ private:
     }
 
 
+    /**
+     * Check that the given local coordinates really map to the world coordinates p. The iterations that compute the
+     * local coordinates of a point located far from an element may stop before they converge, and thereby end up on
+     * arbitrary coordinates inside of it.
+     *
+     * \note When the element's canonical dimension is lower than the world dimension (eg a triangle in 3D), the local
+     *       coordinates are those of a projection of p onto the element, hence nothing is verified.
+     */
+    static auto maps_to(const ContainerElement & e, const LocalCoordinates & local_coordinates, const WorldCoordinates & p) -> bool {
+        if constexpr (ContainerElement::CanonicalDimension == ContainerElement::Dimension) {
+            const auto nodes = e.nodes();
+            const auto squared_size = (nodes.colwise().maxCoeff() - nodes.colwise().minCoeff()).squaredNorm();
+            const WorldCoordinates residual = p - e.world_coordinates(local_coordinates);
+            return residual.squaredNorm() <= squared_size * 1e-6;
+        } else {
+            return true;
+        }
+    }
+
     const Domain * p_container_domain;
     std::vector<BarycentricPoint> p_barycentric_points;
     std::vector<UNSIGNED_INTEGER_TYPE> p_outside_nodes;
-- 
2.43.0


From 021738e0792fe6b309d96bf20f5976fd74163d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:04 +0000
Subject: [PATCH 10/15] fix: VTKReader crashes or builds a mesh with missing or
 invalid cells when the file is damaged

An unreadable, truncated or invalid file made Read dereference a null
pointer, or mesh() write out of bounds, keep indices of points that do not
exist, or silently leave cells out. It is now reported by an exception.
---
 src/Caribou/Topology/IO/VTKReader.cpp | 49 ++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..7413668 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -22,6 +22,7 @@ namespace fs = ::std::filesystem;
 #include <vtkCellData.h>
 #include <vtkCellType.h>
 #include <vtkCellTypes.h>
+#include <vtkGenericCell.h>
 #include <vtkUnstructuredGridReader.h>
 #include <vtkSmartPointer.h>
 #include <vtkPointData.h>
@@ -90,6 +91,11 @@ auto VTKReader<Dimension, NodeIndex>::Read(const std::string &filepath) -> VTKRe
 
     vtkUnstructuredGrid * output = reader->GetOutput();
 
+    // The VTK reader leaves out the sections that it failed to read, or that follow one that is truncated
+    if (output->GetPoints() == nullptr or output->GetCellTypesArray() == nullptr) {
+        throw std::runtime_error("File '" + filepath + "' is not a complete legacy VTK unstructured grid.");
+    }
+
     const auto axes = extract_axes_from_3D_vectors<Dimension>(output->GetPoints(), output->GetNumberOfPoints());
 
 
@@ -102,9 +108,6 @@ auto VTKReader<Dimension, NodeIndex>::mesh () const -> Mesh<Dimension> {
 
     Mesh<Dimension> m;
     const auto number_of_nodes = p_reader->GetOutput()->GetNumberOfPoints();
-    if (number_of_nodes == 0) {
-        return m;
-    }
 
     // Import nodes
     std::vector<WorldCoordinates> nodes;
@@ -138,17 +141,35 @@ auto VTKReader<Dimension, NodeIndex>::mesh () const -> Mesh<Dimension> {
             continue;
         }
 
-        const auto number_of_nodes_per_element = p_reader->GetOutput()->GetCell(cells->GetValue(0))->GetNumberOfPoints();
+        // Number of nodes of this type of cell, or 0 if it can be any
+        const auto reference_cell = vtkSmartPointer<vtkCell>::Take(vtkGenericCell::InstantiateCell(type));
+        vtkIdType number_of_nodes_per_element = reference_cell ? reference_cell->GetNumberOfPoints() : 0;
 
         Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> indices;
-        indices.resize(number_of_elements, number_of_nodes_per_element);
 
         for (vtkIdType j = 0; j < number_of_elements; ++j) {
-            vtkIdType cell_id = cells->GetValue(j);
-            vtkCell* cell = p_reader->GetOutput()->GetCell(cell_id);
-            std::vector<NodeIndex> node_indices (cell->GetNumberOfPoints());
-            for (vtkIdType k = 0; k < cell->GetNumberOfPoints(); ++k) {
-                indices(j,k) = static_cast<NodeIndex>(cell->GetPointId(k));
+            vtkIdType number_of_points = 0;
+            const vtkIdType * points = nullptr;
+            p_reader->GetOutput()->GetCellPoints(cells->GetValue(j), number_of_points, points);
+
+            if (j == 0) {
+                if (number_of_nodes_per_element == 0) {
+                    number_of_nodes_per_element = number_of_points;
+                }
+                indices.resize(number_of_elements, number_of_nodes_per_element);
+            }
+
+            if (number_of_points != number_of_nodes_per_element) {
+                throw std::runtime_error("File '" + p_filepath + "' has a cell with " + std::to_string(number_of_points) +
+                                         " points instead of " + std::to_string(number_of_nodes_per_element) + ".");
+            }
+
+            for (vtkIdType k = 0; k < number_of_points; ++k) {
+                if (points[k] < 0 or points[k] >= number_of_nodes) {
+                    throw std::runtime_error("File '" + p_filepath + "' has a cell that refers to the point " +
+                                             std::to_string(points[k]) + ", which does not exist.");
+                }
+                indices(j,k) = static_cast<NodeIndex>(points[k]);
             }
         }
 
@@ -237,11 +258,13 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
       axes[1] = 1;
       axes[2] = 2;
     } else {
-        double * v = input_points->GetPoint(0);
         std::bitset<3> is_all_the_same(0b111); // Set all to '1' at first
-        std::array<double, 3> last_value {v[0], v[1], v[2]};
+        std::array<double, 3> last_value {};
+        if (number_of_points > 0) {
+            input_points->GetPoint(0, last_value.data());
+        }
         for (vtkIdType i = 1; i < number_of_points; ++i) {
-            v = input_points->GetPoint(i);
+            const double * v = input_points->GetPoint(i);
             for (std::size_t axis = 0; axis < 3; ++axis) {
                 if (last_value[axis] != v[axis])
                     is_all_the_same[axis] = false;
-- 
2.43.0


From f8f4bdf85371854dee8a08177a0762cd1dca7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 11/15] fix: report I/O errors met while reading a VTK file

VTK leaves the rest of a section uninitialised when a read fails with an
error instead of reaching the end of the file, and the import continued with
it. Load the file first, check that it could be read, and let VTK parse it.
---
 src/Caribou/Topology/IO/VTKReader.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 7413668..00c5914 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -7,6 +7,8 @@ namespace fs = ::std::filesystem;
 #endif
 
 #include <bitset>
+#include <fstream>
+#include <sstream>
 
 #include <Caribou/constants.h>
 #include <Caribou/Geometry/Quad.h>
@@ -84,9 +86,18 @@ auto VTKReader<Dimension, NodeIndex>::Read(const std::string &filepath) -> VTKRe
         throw std::invalid_argument("File '" + filepath + "' does not exists or cannot be read.");
     }
 
-    // Get all data from the file
+    // Get all data from the file. VTK does not notice an I/O error in the middle of a section, hence
+    // the file is first loaded in memory.
+    std::ifstream file (filepath, std::ios::binary);
+    std::stringstream content;
+    content << file.rdbuf();
+    if (not file or not content) {
+        throw std::runtime_error("File '" + filepath + "' is empty or cannot be read.");
+    }
+
     auto reader = vtkSmartPointer<vtkUnstructuredGridReader>::New();
-    reader->SetFileName(filepath.c_str());
+    reader->SetInputString(content.str());
+    reader->ReadFromInputStringOn();
     reader->Update();
 
     vtkUnstructuredGrid * output = reader->GetOutput();
-- 
2.43.0


From 92a7ba97ea40120ef12196d255da76a0ab83a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 12/15] fix: registering a domain builder leaves an empty
 builder behind when memory runs out

The copy assignment can throw after the entry was inserted; later imports
then fail with std::bad_function_call.
---
 src/Caribou/Topology/IO/VTKReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.h b/src/Caribou/Topology/IO/VTKReader.h
index c2743d5..5c9236f 100644
--- a/src/Caribou/Topology/IO/VTKReader.h
+++ b/src/Caribou/Topology/IO/VTKReader.h
@@ -82,7 +82,7 @@ public:
      * \endcode
      */
     auto register_element_type(const VTKCellType & vtkCellType, DomainBuilder builder) -> VTKReader & {
-        p_domain_builders[vtkCellType] = builder;
+        p_domain_builders[vtkCellType] = std::move(builder);
         return *this;
     }
 
-- 
2.43.0


From 8dd3b30ab0a789f90911c7e567882590256a33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:30 +0000
Subject: [PATCH 13/15] fix: Python objects of a mesh outlive the mesh they
 point into

Domains obtained from add_domain, domain() and domains(), embeddings and
the views returned by element_indices did not keep the mesh (or domain)
they refer to alive, and a refused add_domain leaked the new domain.
---
 .../Python/Topology/BarycentricContainer.h    |  2 +-
 src/Caribou/Python/Topology/Domain.h          | 34 +++++++++----------
 src/Caribou/Python/Topology/Mesh.cpp          | 12 +++++--
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/Caribou/Python/Topology/BarycentricContainer.h b/src/Caribou/Python/Topology/BarycentricContainer.h
index fd9b00c..cf1369a 100644
--- a/src/Caribou/Python/Topology/BarycentricContainer.h
+++ b/src/Caribou/Python/Topology/BarycentricContainer.h
@@ -63,7 +63,7 @@ void declare_barycentric_container(py::class_<Domain, Holder> & m) {
 
     m.def("embed", [](const Domain & domain, const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> & embedded_points) {
        return domain.embed(embedded_points);
-    }, py::arg("embedded_points"));
+    }, py::arg("embedded_points"), py::keep_alive<0, 1>());
 }
 
 } // namespace caribou::topology::bindings
\ No newline at end of file
diff --git a/src/Caribou/Python/Topology/Domain.h b/src/Caribou/Python/Topology/Domain.h
index 1f5c981..c3c126b 100644
--- a/src/Caribou/Python/Topology/Domain.h
+++ b/src/Caribou/Python/Topology/Domain.h
@@ -21,20 +21,20 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         return domain.element(element_id);
     }, py::arg("element_id"));
 
-    c.def("element_indices", &D::element_indices, py::arg("index"));
+    c.def("element_indices", &D::element_indices, py::arg("index"), py::return_value_policy::reference_internal);
     c.def("mesh", &D::mesh, py::return_value_policy::reference);
 
     // Mesh's add_domain binding for Domain<Element, NodeIndex> type
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d, domain_name);
-        return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get(), domain_name);
+        return d.release();
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d);
-        return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get());
+        return d.release();
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -45,10 +45,10 @@ void declare_domain(pybind11::module & m, const std::string & name) {
             throw py::key_error(ss.str());
         }
 
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d, domain_name);
-        return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get(), domain_name);
+        return d.release();
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -59,10 +59,10 @@ void declare_domain(pybind11::module & m, const std::string & name) {
             throw py::key_error(ss.str());
         }
 
-        auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
-        mesh.add_domain(d);
-        return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+        auto d = std::make_unique<Domain<Element, NodeIndex>>(nullptr, node_indices);
+        mesh.add_domain(d.get());
+        return d.release();
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     declare_barycentric_container(c);
 }
diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 6a27793..2e1cd86 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -21,9 +21,15 @@ void declare_mesh(py::module & m) {
     c.def("number_of_domains", &M::number_of_domains);
     c.def("number_of_nodes", &M::number_of_nodes);
 
-    c.def("domains", &M::domains);
-    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);});
-    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);});
+    c.def("domains", [](const py::object & self) {
+        py::list domains;
+        for (const auto & d : self.cast<const M &>().domains()) {
+            domains.append(py::make_tuple(d.first, py::cast(d.second, py::return_value_policy::reference_internal, self)));
+        }
+        return domains;
+    });
+    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::return_value_policy::reference_internal);
+    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::return_value_policy::reference_internal);
 
     c.def("position", &M::position);
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
-- 
2.43.0


From 5df6c2cf15510c5679955a7a2d77d0e19b46c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:25 +0000
Subject: [PATCH 14/15] fix: the array returned by Mesh.position() in Python
 dangles once the mesh is dropped

---
 src/Caribou/Python/Topology/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 2e1cd86..2b9e26a 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -31,7 +31,7 @@ void declare_mesh(py::module & m) {
     c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::return_value_policy::reference_internal);
     c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::return_value_policy::reference_internal);
 
-    c.def("position", &M::position);
+    c.def("position", &M::position, py::return_value_policy::reference_internal);
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
         return m.positions(indices);
     }, py::arg("indices").noconvert());
-- 
2.43.0


From 5f8d12ffcc1733742ba506ea17b64e9175440f81 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 15/15] fix: print the arrays of any type of a VTK file

---
 src/Caribou/Topology/IO/VTKReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 00c5914..dfb0117 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -213,8 +213,8 @@ void VTKReader<Dimension, NodeIndex>::print (std::ostream & out) const {
     if (numberOfCellArrays > 0) {
         out << "Cell data arrays:\n";
         for (vtkIdType i = 0; i < numberOfCellArrays; i++) {
-            const auto dataTypeID = output->GetCellData()->GetArray(i)->GetDataType();
-            const auto dataTypeIDStr = output->GetCellData()->GetArray(i)->GetDataTypeAsString();
+            const auto dataTypeID = output->GetCellData()->GetAbstractArray(i)->GetDataType();
+            const auto dataTypeIDStr = output->GetCellData()->GetAbstractArray(i)->GetDataTypeAsString();
             out << "  Array " << i << ": "
                 << output->GetCellData()->GetArrayName(i)
                 << "  (type: " << dataTypeIDStr << " - " << dataTypeID << ")\n";
@@ -225,8 +225,8 @@ void VTKReader<Dimension, NodeIndex>::print (std::ostream & out) const {
     if (numberOfFieldArrays) {
         out << "Field data arrays:\n";
         for (vtkIdType i = 0; i < numberOfFieldArrays; i++) {
-            const auto dataTypeID = output->GetFieldData()->GetArray(i)->GetDataType();
-            const auto dataTypeIDStr = output->GetFieldData()->GetArray(i)->GetDataTypeAsString();
+            const auto dataTypeID = output->GetFieldData()->GetAbstractArray(i)->GetDataType();
+            const auto dataTypeIDStr = output->GetFieldData()->GetAbstractArray(i)->GetDataTypeAsString();
             out << "  Array " << i << ": "
                 << output->GetFieldData()->GetArrayName(i)
                 << "  (type: " << dataTypeIDStr << " - " << dataTypeID << ")\n";
-- 
2.43.0

