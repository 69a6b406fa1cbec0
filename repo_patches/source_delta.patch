From e99898bd84c18e95120f7ae63e05b175340dd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 01/40] fix: use the second corner in the closest-point region
 test of Triangle

The vector from the second corner to the query was taken from the third
corner, so closest points near the second corner and on its edges could be
wrong.
---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From c1af7bdfd9af633642684abd59744084aac98405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 02/40] fix: drop old triangle indices when a mesh is rebuilt
 or reloaded

construct(vertices, indices) and loading a PLY file appended to the index
list of the previous contents.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..4fcd4fa 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -93,6 +93,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
+    indices_.clear();
     for (uint32_t i : indices) {
         const Vec3 &pos = vertices[i];
 
@@ -457,6 +458,7 @@ void Mesh::loadPLY(const std::string &filename) {
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
+    indices_.clear();
     for (uint32_t i : raw_indices) {
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
-- 
2.43.0


From 48cb11de4cc4dac08f9240817bec17220ad2b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 03/40] fix: drop degenerate triangles also when several stand
 at the list end

A degenerate triangle was replaced by the last one without looking at the
replacement, which ended in an error if that was degenerate too.
---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4fcd4fa..188729f 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -184,7 +184,7 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
-    for (size_t i = 0; i < indices_.size(); i += 3) {
+    for (size_t i = 0; i < indices_.size();) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
             const int size = (int)indices_.size();
@@ -192,6 +192,8 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+        } else {
+            i += 3;
         }
     }
 
-- 
2.43.0


From 811d8f320abbe31e50a8e0be2e92b295180ad423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 04/40] fix: report unreferenced vertices before following
 their half-edges

The check came after the first loop that dereferences the half-edge of every
vertex, so such input crashed instead of being reported.
---
 src/tinymesh/core/mesh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 188729f..83af1e8 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -287,6 +287,13 @@ void Mesh::construct() {
         }
     }
 
+    // Check if all vertices are referenced
+    for (auto v : vertices_) {
+        if (v->halfedge_ == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+    }
+
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
         Halfedge *he = v->halfedge_;
@@ -350,10 +357,6 @@ void Mesh::construct() {
 
     // Check if the mesh is non-manifold
     for (auto v : vertices_) {
-        if (v->halfedge_ == nullptr) {
-            Error("Some vertices are not referenced by any polygon!");
-        }
-
         uint32_t count = v->isBoundary() ? -1 : 0;
         Halfedge *he = v->halfedge_;
         do {
-- 
2.43.0


From ecb386b133173348fa17af2287163bac89a870e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 05/40] fix: refuse to flip a boundary edge

The face on the other side of a boundary edge is a hole with any number of
edges; rewiring it like a triangle corrupted the mesh.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 83af1e8..f040805 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -878,6 +878,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // Skip halfedge at the boundary
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From 56dc73df3a6593320da2bb5a07e808a919fc15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 06/40] fix: refuse to collapse an interior edge between two
 boundary vertices

The collapse pinched the boundary into a non-manifold vertex; the mesh could
not be cloned or reloaded afterwards.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index f040805..87d37a3 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -726,6 +726,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // Skip interior halfedge between two boundary vertices (the collapse makes a non-manifold vertex)
+    if (he->src()->isBoundary() && rev->src()->isBoundary()) {
+        return false;
+    }
+
     // Check degrees of end points
     Vertex *v0 = he->src();
     Vertex *v1 = he->prev()->src();
-- 
2.43.0


From 293954e86bd7fe338b1c196c378830fbe9690a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 07/40] fix: compare face orientations across zero-area terms
 in collapseHE

The terms next to the surviving vertex are always zero and reset the sign, so
a face flip went unnoticed depending on where the traversal started.
---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 87d37a3..13ba427 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -793,7 +793,9 @@ bool Mesh::collapseHE(Halfedge *he) {
         if (sign * s < 0.0) {
             return false;
         }
-        sign = s;
+        if (s != 0.0) {
+            sign = s;
+        }
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From 7cf60670e60a04e0041bd3aa85338bf246c98478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 08/40] fix: clear boundary flags on both sides of a filled
 hole

The half-edges around a filled hole kept reporting that they are on the
boundary, so their vertices and faces stayed frozen.
---
 src/tinymesh/core/completion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..544a0ff 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -69,6 +69,13 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he1->isBoundary_ = false;
     new_he2->isBoundary_ = false;
 
+    // The opposite halfedges are not on the boundary, either
+    for (Halfedge *he : { new_he0, new_he1, new_he2 }) {
+        if (he->rev_) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
+
     auto new_face = new Face();
     addFace(new_face);
 
-- 
2.43.0


From 47edb384ebb3dd748bb92bc30c78ad4b927e739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 09/40] fix: do not merge front vertices into a locked vertex
 in hole filling

The lock test looked at the same vertex twice, so an original boundary vertex
could be moved.
---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 544a0ff..29fd687 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -268,7 +268,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From 83e56d7afee399b40477f580fcff638676d1e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 10/40] fix: tell an isolated triangle from a hole

A triangle whose three edges are all on the boundary was taken for a hole and
lost by clone(), save() and getVertexIndices().
---
 src/tinymesh/core/completion.cpp | 1 +
 src/tinymesh/core/face.cpp       | 8 +-------
 src/tinymesh/core/face.h         | 1 +
 src/tinymesh/core/mesh.cpp       | 1 +
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 29fd687..44289ba 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -260,6 +260,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
                 it->isBoundary_ = false;
                 it->rev_->isBoundary_ = false;
             }
+            face->isHole_ = false;
             break;
         }
 
diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c73ba45..9e4ef97 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -76,13 +76,7 @@ int Face::numCorners() const {
 }
 
 bool Face::isHole() const {
-    // Face is hole if all the vertices are at the boundary.
-    for (auto it = this->he_begin(); it != this->he_end(); ++it) {
-        if (!it->isBoundary()) {
-            return false;
-        }
-    }
-    return true;
+    return isHole_;
 }
 
 bool Face::isBoundary() const {
diff --git a/src/tinymesh/core/face.h b/src/tinymesh/core/face.h
index 0f4ef98..b8fe9a6 100644
--- a/src/tinymesh/core/face.h
+++ b/src/tinymesh/core/face.h
@@ -67,6 +67,7 @@ public:
 private:
     Halfedge *halfedge_ = nullptr;
     int index_ = -1;
+    bool isHole_ = false;
 
     friend class Mesh;
 };
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 13ba427..4828043 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -314,6 +314,7 @@ void Mesh::construct() {
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
+            face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-- 
2.43.0


From e21b3596f91bf5e487513467ea70dfe095bf457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 11/40] fix: subtract instead of multiply in vector minus
 scalar operators

---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..b46e5c1 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From bf23c024e9e4665febd213db680d9d84003a4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 12/40] fix: do not write past the end of two-dimensional
 vectors

---
 src/tinymesh/core/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index b46e5c1..a93d146 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -32,8 +32,8 @@ public:
         std::fill(elems.begin(), elems.end(), w);
 
         elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
     }
 
     explicit Vec(const Vec &other) {
-- 
2.43.0


From 1fc02e2e61d8d8db4e8fa564fa0f50fcb953e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:38 +0000
Subject: [PATCH 13/40] fix: report an unwritable destination when saving PLY

The stream state says nothing about the file buffer, so a failed open went
unnoticed and nothing was written.
---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4828043..2af6402 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -521,7 +521,7 @@ void Mesh::savePLY(const std::string &filename) const {
     buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
 
     std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.is_open()) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
-- 
2.43.0


From 970a04e482a32c9dffe70800ef0859099a6a2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:39 +0000
Subject: [PATCH 14/40] fix: keep the progress bar within its width

simplifyQEM steps by two, so an odd small total overshot and asked for a
negative padding, which threw an exception.
---
 src/tinymesh/core/progress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..e786409 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -65,7 +65,7 @@ public:
             it_text = oss.str();
         }
 
-        const int tick = (int)(m_width * m_step / m_total);
+        const int tick = std::min(m_width, (int)(m_width * m_step / m_total));
         std::string pbar = std::string(tick, '=');
         if (tick != m_width) {
             pbar += ">";
-- 
2.43.0


From 40f2d77f8448e154629689912d58a3ce27a7f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:39 +0000
Subject: [PATCH 15/40] fix: report a face collapse whenever the mesh was
 changed

collapseFace returned false if only one of its two edge collapses was carried
out, although the mesh had been modified; callers then went on using removed
elements.
---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 2af6402..400af03 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -869,7 +869,7 @@ bool Mesh::collapseFace(Face *f) {
     bool ret = collapseHE(he1);
     Assertion(he2->index() >= 0 && he2->index() < numHalfedges(), "Error!!");
 
-    ret &= collapseHE(he2);
+    ret |= collapseHE(he2);
 
     return ret;
 
-- 
2.43.0


From 001c4b419bdebb208edb71b007e6f774e8a3ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:39 +0000
Subject: [PATCH 16/40] fix: write OBJ coordinates with full single precision

The default of six digits merged nearby vertices when the file was loaded
again.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 400af03..992678f 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -493,6 +493,8 @@ void Mesh::saveOBJ(const std::string &filename) const {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    // Enough digits to keep coordinates distinct in single precision
+    writer.precision(9);
     for (const auto &v : vertices_) {
         writer << "v " << v->pos().x() << " " << v->pos().y() << " " << v->pos().z() << std::endl;
     }
-- 
2.43.0


From 5f46081364751d6d593b49cf68c22f69f2953610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:15 +0000
Subject: [PATCH 17/40] fix: keep the half-edge while the list grows in
 boundary construction

---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 992678f..88cc09b 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -310,7 +310,7 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
+        const auto he = halfedges_[i];
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
-- 
2.43.0


From a95f8fd68966cd0369762f8329ef5bf3aee5a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:43 +0000
Subject: [PATCH 18/40] fix: list edges of denoiseL0Smooth in mesh order

The edges were taken from a hash set of pointers.
Their order, and with it the rounding of the solved positions, changed from run to run.
---
 src/tinymesh/filters/denoise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..9bb63d0 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -179,13 +179,14 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
 
     // List unique halfedges
     std::unordered_set<Halfedge *> uniqueHEs;
+    std::vector<Halfedge *> edges;
     for (int i = 0; i < mesh.numHalfedges(); i++) {
         Halfedge *he = mesh.halfedge(i);
         if (uniqueHEs.count(he) != 0) continue;
         if (uniqueHEs.count(he->rev()) != 0) continue;
         uniqueHEs.insert(he);
+        edges.push_back(he);
     }
-    std::vector<Halfedge *> edges(uniqueHEs.begin(), uniqueHEs.end());
     Assertion(edges.size() == ne, "Collecting unique edges inconsistent!");
 
     std::vector<EigenTriplet> tripR;
-- 
2.43.0


From 59d4a96a747fb051c48ca63c5a32a67e49ca05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 19/40] fix: report PLY files without vertices or faces

The missing data was dereferenced as a null pointer.
---
 src/tinymesh/core/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 88cc09b..ede4ca3 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -450,6 +450,10 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || !face_data) {
+        Error("Failed to load *.ply file: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
-- 
2.43.0


From 66285ebd977cebf131cdb470fd8a138e437f3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:32 +0000
Subject: [PATCH 20/40] fix: closest point on a triangle whose first two
 corners coincide

---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 134f60d..f99bf5b 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -27,7 +27,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     if (d6 >= 0.0 && d5 <= d6) return p2;  //#3
 
     const double vc = d1 * d4 - d3 * d2;
-    if (vc <= 0.0 && d1 >= 0.0 && d3 <= 0.0) {
+    if (vc <= 0.0 && d1 >= 0.0 && d3 <= 0.0 && d1 > d3) {
         const double v = d1 / (d1 - d3);
         return p0 + v * ab;  //#4
     }
-- 
2.43.0


From ee65fb07e42c8db2fd6adbc3fdb5560341611e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:48 +0000
Subject: [PATCH 21/40] fix: tell obtuse triangles by the signs of their
 corners

---
 src/tinymesh/core/vec.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index a93d146..3529dcd 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -315,12 +315,7 @@ double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Flo
 template <typename Float, int Dims>
 bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+    return dot(b - a, c - a) < 0.0 || dot(c - b, a - b) < 0.0 || dot(a - c, b - c) < 0.0;
 }
 
 //! cotangent for angle a-b-c
-- 
2.43.0


From 06fc9e345c99f43001a2c9c9288507dbb7525511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:54 +0000
Subject: [PATCH 22/40] fix: principal directions belong to the other curvature

---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..9c76460 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0


From f128d6ccb0aa6a53a8a6db2fb763d1534d527bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:24 +0000
Subject: [PATCH 23/40] fix: keep the frames of curvature tensors in the
 tangent plane

---
 src/tinymesh/ops/features.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 9c76460..1d974a5 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -268,7 +268,8 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
         const Vec3 np = vertex->normal();
         Vec3 up, vp;
         for (auto it = vertex->v_begin(); it != vertex->v_end(); ++it) {
-            up = normalize(it->pos() - vertex->pos());
+            const Vec3 d = it->pos() - vertex->pos();
+            up = normalize(d - dot(d, np) * np);
             break;
         }
         vp = normalize(cross(np, up));
-- 
2.43.0


From 8004822ebb06cf80053ff7b3431c335fbd3e8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:00 +0000
Subject: [PATCH 24/40] fix: distance from boxes other than Bounds3 does not
 compile

---
 src/tinymesh/core/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/bounds.h b/src/tinymesh/core/bounds.h
index cbbcb3c..ede6787 100644
--- a/src/tinymesh/core/bounds.h
+++ b/src/tinymesh/core/bounds.h
@@ -56,8 +56,8 @@ public:
     }
 
     double distance(const VecD &p) {
-        const Vec3 vmin = std::abs(posMin_ - p);
-        const Vec3 vmax = std::abs(posMax_ - p);
+        const VecD vmin = std::abs(posMin_ - p);
+        const VecD vmax = std::abs(posMax_ - p);
         double dist = 0.0;
         for (int d = 0; d < Dims; d++) {
             if (p[d] < posMin_[d] || posMax_[d] < p[d]) {
-- 
2.43.0


From be827303734e4246bc0981a6407aa6c57cab9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:43 +0000
Subject: [PATCH 25/40] fix: report triangle lists that are cut short or name
 missing vertices

Mesh::construct read past the end of the index list when its length was not
a multiple of three, and past the end of the vertex list when an index was
out of bounds. Report both before the mesh is touched.
---
 src/tinymesh/core/mesh.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index ede4ca3..d3d07eb 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -86,6 +86,16 @@ void Mesh::load(const std::string &filename) {
 }
 
 void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices) {
+    // Check indices
+    if (indices.size() % 3 != 0) {
+        Error("Number of indices is not a multiple of three: %d", (int)indices.size());
+    }
+    for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of bounds: %u", i);
+        }
+    }
+
     // Clear existing elements
     vertices_.clear();
     halfedges_.clear();
-- 
2.43.0


From 183175eb05b373e36ddd65eb60b8cac04ddd52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:43 +0000
Subject: [PATCH 26/40] fix: report OBJ and PLY files whose faces name missing
 vertices

Such indices were followed past the end of the vertex list.
---
 src/tinymesh/core/mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index d3d07eb..8bb9701 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -403,6 +403,10 @@ void Mesh::loadOBJ(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     for (const auto &shape : shapes) {
         for (const auto &index : shape.mesh.indices) {
+            if (index.vertex_index >= (int)(attrib.vertices.size() / 3)) {
+                Error("Vertex index out of bounds: %d", index.vertex_index);
+            }
+
             Vec3 v;
             if (index.vertex_index >= 0) {
                 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
@@ -480,6 +484,10 @@ void Mesh::loadPLY(const std::string &filename) {
     vertices_.clear();
     indices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index out of bounds: %u", i);
+        }
+
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From bccaa54304d14a974833ce00d476c13a9b5094e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:43 +0000
Subject: [PATCH 27/40] fix: report PLY files with unsupported property types

The raw bytes of positions and indices were copied as 32 bit numbers
whatever their type, so that double precision files gave garbage and
files with short indices were read past the end of the buffer.
---
 src/tinymesh/core/mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 8bb9701..39f97bc 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -468,6 +468,12 @@ void Mesh::loadPLY(const std::string &filename) {
         Error("Failed to load *.ply file: %s", filename.c_str());
     }
 
+    // Only single precision positions and 32 bit indices are supported
+    if (vert_data->t != tinyply::Type::FLOAT32 ||
+        (face_data->t != tinyply::Type::INT32 && face_data->t != tinyply::Type::UINT32)) {
+        Error("Unsupported property type in *.ply file: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
-- 
2.43.0


From db397e7a6c2965f9df145b2d679d068dc9599684 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:43 +0000
Subject: [PATCH 28/40] fix: report malformed triangle lists and queries on an
 empty BVH

The lists were read past their ends, and a query without any triangle
dereferenced a null pointer.
---
 src/tinymesh/core/bvh.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 208bb59..41f2520 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -3,6 +3,7 @@
 
 #include <stack>
 
+#include "debug.h"
 #include "mesh.h"
 
 namespace tinymesh {
@@ -59,6 +60,15 @@ BVH::BVH(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices
 }
 
 void BVH::construct(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices) {
+    if (indices.size() % 3 != 0) {
+        Error("Number of indices is not a multiple of three: %d", (int)indices.size());
+    }
+    for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of bounds: %u", i);
+        }
+    }
+
     tris.clear();
     std::vector<BVHPrimitiveInfo> buildData;
     for (size_t i = 0; i < indices.size(); i += 3) {
@@ -79,6 +89,10 @@ double BVH::distance(const Vec3 &p) const {
 }
 
 Vec3 BVH::closestPoint(const Vec3 &query) const {
+    if (!root) {
+        Error("BVH does not have any triangles!");
+    }
+
     std::stack<BVHNode *> stk;
     stk.push(root);
 
-- 
2.43.0


From 04505cfd737da336a5d1bf39d6e204d07bd47815 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:43 +0000
Subject: [PATCH 29/40] fix: report non-triangular meshes before normal
 filtering starts

The error was raised inside of a parallel loop, where an exception cannot
reach the caller and ends the process of the Python interpreter, and only
after the positions were smoothed.
---
 src/tinymesh/filters/denoise.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index 9bb63d0..9368cd5 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -31,6 +31,15 @@ inline double K(double x, double sigma) {
     return 0.0;
 }
 
+// Errors must not be raised inside of parallel loops
+void checkTriangular(const tinymesh::Mesh &mesh) {
+    for (int i = 0; i < (int)mesh.numFaces(); i++) {
+        if (mesh.face(i)->numCorners() != 3) {
+            Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
+        }
+    }
+}
+
 }  // anonymous namespace
 
 namespace tinymesh {
@@ -40,6 +49,8 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
@@ -55,10 +66,6 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
@@ -106,6 +113,8 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
@@ -121,10 +130,6 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
-- 
2.43.0


From 6dd06a5a3903b3dc1984cf887ede4bcfd5832170 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:44 +0000
Subject: [PATCH 30/40] fix: report negative targets of simplifyQEM

The check of the target was only reached for a target of zero.
---
 src/tinymesh/remesh/simplify.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 9a0708a..c8591e9 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -115,9 +115,7 @@ double computeQEM(const Matrix4 &m1, const Matrix4 &m2, const Vertex &v1, const
 void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
     static const double Eps = 1.0e-12;
     const int numTargetRemove = (int)mesh.numFaces() - numTarget;
-    if (numTarget == 0) {
-        Assertion(numTarget > 0, "Target face number is equal or less than 0!");
-    }
+    Assertion(numTarget > 0, "Target face number is equal or less than 0!");
 
     if (numTargetRemove <= 0) {
         Warn("#vertices is already less than #target: %d < %d", (int)mesh.numFaces(), numTarget);
-- 
2.43.0


From 397106d4068bf0b17992bb3ede126d23a164aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:01:44 +0000
Subject: [PATCH 31/40] fix: leave the feature line field zero where no feature
 reaches

Meshes without ridges and valleys, such as spheres, have a zero solution
of the Laplace equation, whose normalization raised a zero division.
---
 src/tinymesh/ops/features.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 1d974a5..7def1a5 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -724,7 +724,10 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
-        rvDirections[it.first] = normalize(Vec3(xx(i, 0), xx(i, 1), xx(i, 2)));
+        const Vec3 d(xx(i, 0), xx(i, 1), xx(i, 2));
+        if (length(d) > 1.0e-8) {
+            rvDirections[it.first] = normalize(d);
+        }
     }
 
     // Convert std::vector to EigenMatrix
-- 
2.43.0


From 29fae4d48550bd3dd8b26e18e0b96f966509c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:42 +0000
Subject: [PATCH 32/40] fix: make the Gaussian kernel of normal filtering
 continuous

---
 src/tinymesh/filters/denoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index 9368cd5..6533002 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -20,7 +20,7 @@ inline double K(double x, double sigma) {
     const double sigma2 = sigma * sigma;
     const double coef = 1.0 / (std::sqrt(2.0 * Pi) * sigma);
     if (x < 2.0 * sigma) {
-        return coef * std::exp(-x * x / sigma2);
+        return coef * std::exp(-x * x / (2.0 * sigma2));
     }
 
     if (x < 4.0 * sigma) {
-- 
2.43.0


From 3ebbe4a45d2e58ca14388e173003e62ea79539b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:34 +0000
Subject: [PATCH 33/40] fix: keep the input vertices when repairing a
 context-coherent filling

---
 src/tinymesh/restore/completion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..09de723 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -571,6 +571,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
                 Vertex *v = mesh.vertex(tgtId);
                 for (auto it = v->he_begin(); it != v->he_end(); ++it) {
+                    // Input vertices must not be removed
+                    if (it->src()->isLocked() || it->dst()->isLocked()) continue;
+
                     const Vec3 v0 = it->src()->pos();
                     const Vec3 v1 = it->dst()->pos();
                     const Vec3 vl = it->next()->dst()->pos();
@@ -601,6 +604,13 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 for (auto it = v->f_begin(); it != v->f_end(); ++it) {
                     if (it->index() < 0) continue;
 
+                    // Input vertices must not be removed
+                    bool isLocked = false;
+                    for (auto vit = it->v_begin(); vit != it->v_end(); ++vit) {
+                        isLocked = isLocked || vit->isLocked();
+                    }
+                    if (isLocked) continue;
+
                     if (it->area() < 0.01 * avgArea) {
                         if (mesh.collapseFace(it.ptr())) {
                             isRepaired = true;
-- 
2.43.0


From f03689d0bd0a35fdc8292cb3eedc7e0b3cc3fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:24 +0000
Subject: [PATCH 34/40] fix: leave the feature line field zero where no feature
 is connected

Without a ridge or a valley the Laplace equation is singular. The factorization stopped at a zero pivot and the field was filled with leftovers of memory.
---
 src/tinymesh/ops/features.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 7def1a5..c4d4e9d 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -1,6 +1,8 @@
 #define TINYMESH_API_EXPORT
 #include "ops.h"
 
+#include <queue>
+
 #include <Eigen/Eigenvalues>
 #include <Eigen/Cholesky>
 #include <Eigen/SparseCholesky>
@@ -656,6 +658,27 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
         }
     }
 
+    // Collect vertices connected to a ridge or a valley. The directions at the others remain zero,
+    // because the Laplace equation is singular there
+    std::vector<bool> connected(mesh.numVertices(), false);
+    std::queue<const Vertex *> que;
+    for (size_t i = 0; i < mesh.numVertices(); i++) {
+        if (ridgeValleyFlags(i) != 0.0) {
+            connected[i] = true;
+            que.push(mesh.vertex(i));
+        }
+    }
+    while (!que.empty()) {
+        const Vertex *v = que.front();
+        que.pop();
+        for (auto it = v->v_begin(); it != v->v_end(); ++it) {
+            if (!connected[it->index()]) {
+                connected[it->index()] = true;
+                que.push(it.ptr());
+            }
+        }
+    }
+
     // Solve Laplace equation
     std::vector<EigenTriplet> tripNonRV;
     std::vector<EigenTriplet> tripRV;
@@ -665,7 +688,7 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
     int countRV = 0;
     for (size_t i = 0; i < mesh.numVertices(); i++) {
         const Vertex *v = mesh.vertex(i);
-        if (ridgeValleyFlags(i) == 0.0) {
+        if (ridgeValleyFlags(i) == 0.0 && connected[i]) {
             // non-ridge-valley vertex
             if (uniqueNonRV.count(i) == 0) {
                 uniqueNonRV[i] = countNonRV;
-- 
2.43.0


From c843099caa72e0e1ceb90634d798937916a7c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:36 +0000
Subject: [PATCH 35/40] fix: keep the mesh alive while Python holds its
 vertices or faces

---
 src/pybind11.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index e9870e9..020e1cf 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -58,8 +58,8 @@ PYBIND11_MODULE(tinymesh, m) {
         .def("clone", &Mesh::clone, py::return_value_policy::move)
         .def("load", &Mesh::load)
         .def("save", &Mesh::save)
-        .def("vertex", &Mesh::vertex, py::return_value_policy::reference)
-        .def("face", &Mesh::face, py::return_value_policy::reference)
+        .def("vertex", &Mesh::vertex, py::return_value_policy::reference_internal)
+        .def("face", &Mesh::face, py::return_value_policy::reference_internal)
         .def("get_vertices", &Mesh::getVertices)
         .def("get_vertex_indices", &Mesh::getVertexIndices)
         .def("num_vertices", &Mesh::numVertices)
-- 
2.43.0


From 408761fa0bf213b42868628f07b0791b7786ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:49 +0000
Subject: [PATCH 36/40] fix: reject None as the hole to be filled instead of
 crashing Python

---
 src/pybind11.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index 020e1cf..a1ba83c 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -137,10 +137,10 @@ PYBIND11_MODULE(tinymesh, m) {
           py::arg("n_trials") = 10, py::arg("verbose") = false);
 
     /*** Hole filling ***/
-    m.def("hole_fill_min_dihedral", &holeFillMinDihedral, "Max-area hole filling", py::arg("mesh"), py::arg("face"),
-          py::arg("dihedral_bound") = Pi);
+    m.def("hole_fill_min_dihedral", &holeFillMinDihedral, "Max-area hole filling", py::arg("mesh"),
+          py::arg("face").none(false), py::arg("dihedral_bound") = Pi);
     m.def("hole_fill_advancing_front", &holeFillAdvancingFront, "Advancing front hole filling", py::arg("mesh"),
-          py::arg("face"));
+          py::arg("face").none(false));
     m.def("hole_fill_context_coherent", &holeFillContextCoherent, "Context-based coherent surface completion",
           py::arg("mesh"), py::arg("maxiters") = 200);
 }
-- 
2.43.0


From 6487a1f9a6edb374a20f69734ece6d59d9a1db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:43 +0000
Subject: [PATCH 37/40] fix: solve the symmetric systems of L0 smoothing by
 conjugate gradients

The system is symmetric and positive definite. The solver for general systems
broke down on regular meshes and left NaN positions.
---
 src/tinymesh/filters/denoise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index 6533002..06aebaa 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -300,7 +300,8 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
         EigenSparseMatrix A = I + alpha * R.transpose() * R + beta * D.transpose() * D;
         EigenMatrix bb = pVecInit + beta * D.transpose() * delta;
 
-        Eigen::BiCGSTAB<EigenSparseMatrix> cg;
+        // NOTE: "A" is symmetric and positive definite
+        Eigen::ConjugateGradient<EigenSparseMatrix, Eigen::Lower | Eigen::Upper> cg;
         cg.compute(A);
         pVec = cg.solve(bb);
         if (cg.info() != Eigen::Success) {
-- 
2.43.0


From d02abecc46655e4d360d305b9db8f1c3102ba3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:44 +0000
Subject: [PATCH 38/40] fix: remember merged vertices themselves in
 simplification

A merge takes a vertex out and moves the last one into its place, so marks
kept by index went to other vertices. Some vertices were merged twice in one
pass with outdated errors and others were passed over.
---
 src/tinymesh/remesh/simplify.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index c8591e9..0f6d468 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -134,7 +134,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
         const int numVertices = (int)mesh.numVertices();
         const int numHalfedges = (int)mesh.numHalfedges();
         const int numFaces = (int)mesh.numFaces();
-        std::vector<int> checked(numVertices, 0);
+        std::set<Vertex *> checked;
 
         // Compute quadric metric tensor for current vertices.
         std::vector<Matrix4> Qs(numVertices, Matrix4::Zero());
@@ -207,7 +207,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             Vertex *v_j = mesh.vertex(jj);
 
             // Skip checked vertices
-            if (checked[v_i->index()] || checked[v_j->index()]) {
+            if (checked.count(v_i) != 0 || checked.count(v_j) != 0) {
                 continue;
             }
 
@@ -315,7 +315,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
 
             // Collapse halfedge
             qn.he->src()->setPos(qn.v);
-            checked[qn.he->src()->index()] = 1;
+            checked.insert(qn.he->src());
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
-- 
2.43.0


From 12cfccc1321337dd181bd0e28565398e96160f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:44 +0000
Subject: [PATCH 39/40] fix: place the end that remains when simplification
 merges an edge

Merging an edge keeps the end of smaller degree. Simplification always moved
the source, so for half of the edges the optimal position went to the vertex
that was taken out.
---
 src/tinymesh/remesh/simplify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 0f6d468..8ee2f0c 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -314,8 +314,9 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             removedHalfedges.insert(qn.he->rev()->next()->next());
 
             // Collapse halfedge
-            qn.he->src()->setPos(qn.v);
-            checked.insert(qn.he->src());
+            Vertex *v_keep = v_i->degree() <= v_j->degree() ? v_i : v_j;
+            v_keep->setPos(v_bar);
+            checked.insert(v_keep);
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
-- 
2.43.0


From 84a702ae5d11d8f8c2cc87ac8c38b50d8a2d0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:44 +0000
Subject: [PATCH 40/40] fix: move the vertex back if simplification cannot
 merge its edge

---
 src/tinymesh/remesh/simplify.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 8ee2f0c..f51eb95 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -315,11 +315,14 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
 
             // Collapse halfedge
             Vertex *v_keep = v_i->degree() <= v_j->degree() ? v_i : v_j;
+            const Vec3 v_old = v_keep->pos();
             v_keep->setPos(v_bar);
             checked.insert(v_keep);
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
+            } else {
+                v_keep->setPos(v_old);
             }
 
             if (numRemoved >= numTargetRemove) {
-- 
2.43.0

