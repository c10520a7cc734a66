From 064c481a50238294544322e8fb5e039cb5e42b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:48 +0000
Subject: [PATCH 01/13] fix: multiply every column of the right-hand matrix in
 Mat * Mat

---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From fc629a5ee85392cb610dfa3db1640aa557f41711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:32 +0000
Subject: [PATCH 02/13] fix: swap the mid-edge nodes of the middle edges when
 flipping an eight-node quadrilateral

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 include/um2/mesh/face_vertex_mesh.hpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From b716c650df7d7d1c9ace3905022301788b336422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 03/13] fix: make the bounding-box constructor of RegularGrid
 compile

---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..8f5d1d7 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.maxima() - box.minima())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From 064b523c5b53c28756e037833f99daa32a72ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:03 +0000
Subject: [PATCH 04/13] fix: append an element of the same vector correctly
 when the storage is reallocated

---
 include/um2/stdlib/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..dc1eb56 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,10 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The arguments may refer to an element of this vector, so construct the new element
+  // before the existing elements are moved.
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +378,10 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The arguments may refer to an element of this vector, so construct the new element
+  // before the existing elements are moved.
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From f5e4d0040aa169118c7cf2c77f596aab1783383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:37 +0000
Subject: [PATCH 05/13] fix: report absence when searching a StringView from
 its end

---
 include/um2/stdlib/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..f3e6ddc 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -422,7 +422,7 @@ PURE HOSTDEV constexpr auto
 StringView::find_first_of(StringView const sv, uint64_t pos) const noexcept -> uint64_t
 {
   // Check valid pos
-  if (pos > size()) {
+  if (pos >= size()) {
     return npos;
   }
 
-- 
2.43.0


From 6cc9998e493ac99948b22f2614ed32ac87eec1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:33 +0000
Subject: [PATCH 06/13] fix: make room for every value when converting
 floating-point numbers to String

---
 include/um2/stdlib/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..c91a4ac 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -673,7 +673,7 @@ inline String::String(int64_t t) noexcept
 template <>
 inline String::String(float t) noexcept
 {
-  char buf[32];
+  char buf[64]; // up to 39 digits before the decimal point
   auto const d = static_cast<double>(t);
   int32_t const len = snprintf(nullptr, 0, "%f", d);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", d);
@@ -684,7 +684,7 @@ inline String::String(float t) noexcept
 template <>
 inline String::String(double t) noexcept
 {
-  char buf[32];
+  char buf[320]; // up to 309 digits before the decimal point
   int32_t const len = snprintf(nullptr, 0, "%f", t);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", t);
   ASSERT(written == len);
-- 
2.43.0


From 0576804a8bf778627f4b4648ce559a6dcdd82d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:11 +0000
Subject: [PATCH 07/13] fix: let Vector be assigned when elements live in
 namespace std

The unqualified addressof call was ambiguous with std::addressof for
element types such as std::complex, so copying did not compile.
---
 include/um2/stdlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index dc1eb56..47459a6 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -525,7 +525,7 @@ template <class T>
 HOSTDEV inline auto
 Vector<T>::operator=(Vector<T> const & v) noexcept -> Vector<T> &
 {
-  if (this != addressof(v)) {
+  if (this != um2::addressof(v)) {
     assign(v._begin, v._end);
   }
   return *this;
@@ -535,7 +535,7 @@ template <class T>
 HOSTDEV inline auto
 Vector<T>::operator=(Vector<T> && v) noexcept -> Vector<T> &
 {
-  if (this != addressof(v)) {
+  if (this != um2::addressof(v)) {
     deallocate();
     // Move the buffer from v
     _begin = v._begin;
-- 
2.43.0


From dd6f1dc8936c6e9f5d11b2b53fe0a12e27121a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:11 +0000
Subject: [PATCH 08/13] fix: clear the result before accumulating in the
 built-in matmul

Without BLAS the product was added to whatever the result matrix held.
---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..38c92f1 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -475,6 +475,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
   ASSERT(c.rows() == a.rows());
   ASSERT(c.cols() == b.cols());
 
+  c.zero();
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
       for (Int k = 0; k < a.cols(); ++k) {
-- 
2.43.0


From b2abd56eccd69911ca3103e3db06658b38c0a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:51 +0000
Subject: [PATCH 09/13] fix: order faces hit by a ray by their two smallest
 crossings

The second smallest crossing started out equal to the first one looked at,
so for ascending crossings the smallest alone decided the order.
---
 src/mesh/face_vertex_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..b569699 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -558,7 +558,8 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
     Int const offset = offsets[iface];
     Int const next_offset = offsets[iface + 1];
     Float r0 = coords[offset];
-    Float r1 = coords[offset];
+    // If there is only one coordinate, use it twice.
+    Float r1 = (next_offset - offset > 1) ? infDistance<Float>() : r0;
     for (Int i = offset + 1; i < next_offset; ++i) {
       Float const r = coords[i];
       if (r < r0) {
-- 
2.43.0


From 045b3cdaae2d18784b80a3b315e227f4588ecfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:32 +0000
Subject: [PATCH 10/13] fix: merge a polytope soup that has no elements

operator+= read the first element offset of the other soup even when that
soup has no elements, in which case there are no offsets to read.
---
 src/mesh/polytope_soup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..9351651 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -274,7 +274,8 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
   // Element offsets
   Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
   _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
+  _element_offsets[this_num_elems] = last_offset;
+  for (Int i = 1; i < other_num_elems + 1; ++i) {
     _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
   }
 
-- 
2.43.0


From 7d86d71f3361050c390ef6443975d942dbddc420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:32 +0000
Subject: [PATCH 11/13] fix: sorting the elsets of a soup without elsets does
 nothing

sortElsets wrote the first offset of an empty offset vector.
---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 9351651..5904c2d 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -206,6 +206,9 @@ PolytopeSoup::sortElsets()
   // Create a vector that stores the name and index of each elset.
   using NameIndexPair = um2::Pair<String, Int>;
   Int const num_elsets = _elset_names.size();
+  if (num_elsets == 0) {
+    return;
+  }
   Vector<NameIndexPair> elset_name_index_pairs(num_elsets);
   for (Int i = 0; i < num_elsets; ++i) {
     elset_name_index_pairs[i] = NameIndexPair(_elset_names[i], i);
-- 
2.43.0


From 3ef78feb7537f024acfe93db89839f1148f08a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:59 +0000
Subject: [PATCH 12/13] fix: do not keep an empty mesh when a rectangular pin
 mesh is rejected

---
 src/mpact/model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..4a4fa96 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -718,8 +718,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
 
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
@@ -730,6 +728,9 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     return -1;
   }
 
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
+
   // Make the vertices
   auto & vertices = mesh.vertices();
   vertices.resize((nx_faces + 1) * (ny_faces + 1));
-- 
2.43.0


From f8173192635ef597173a55dd16bee5039d47070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:45:50 +0000
Subject: [PATCH 13/13] fix: add a cylindrical pin cell only when its mesh and
 materials are valid

---
 src/mpact/model.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 4a4fa96..80ccdc9 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -658,10 +658,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -685,6 +681,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id < 0) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
-- 
2.43.0

