"""Small wrong changes used to measure the checks: (name, properties, file, old, new).
Properties are the ones whose statement the change breaks; tools/campaign.py runs them."""
D = "src/tinymesh/"
M, V, F, H = D + "core/mesh.cpp", D + "core/vertex.cpp", D + "core/face.cpp", D + "core/halfedge.cpp"
C, T, B = D + "core/completion.cpp", D + "core/triangle.cpp", D + "core/bvh.cpp"
S, DN, R, Q = D + "filters/smooth.cpp", D + "filters/denoise.cpp", D + "remesh/remesh.cpp", D + "remesh/simplify.cpp"
X, O, ME = D + "ops/features.cpp", D + "ops/operators.cpp", D + "ops/metrics.cpp"
PY = "src/pybind11.cpp"
VH, BH = D + "core/vec.h", D + "core/bounds.h"
MUTANTS = [
 # --- building
 ("build-hole-order", "C01 C02", M, "                const int k = (j - 1 + degree) % degree;\n                boundaryHalfedges[j]", "                const int k = (j + 1) % degree;\n                boundaryHalfedges[j]"),
 ("build-degen-one-pass", "C01", M, "            indices_.resize(size - 3);\n        } else {\n            i += 3;\n        }", "            indices_.resize(size - 3);\n        }\n        i += 3;"),
 ("build-degen-two-of-three", "C01", M, "        if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||\n            indices_[i + 2] == indices_[i + 0]) {\n            const int size", "        if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2]) {\n            const int size"),
 ("build-dup-first-edges", "C01", M, "        bool isDuplicated = false;\n        for (int j = 0; j < ngon; j++) {", "        bool isDuplicated = false;\n        for (int j = 0; j < ngon - 1; j++) {"),
 ("build-dup-third-any", "C01", M, "            if (pairToHalfedge.find(ab) != pairToHalfedge.end()) {\n                Warn(", "            if (pairToHalfedge.find(ab) != pairToHalfedge.end() && pairToHalfedge.find(IndexPair(b, a)) == pairToHalfedge.end()) {\n                Warn("),
 ("build-hole-flag-long", "C01", M, "            const auto degree = static_cast<int>(boundaryHalfedges.size());\n", "            const auto degree = static_cast<int>(boundaryHalfedges.size());\n            face->isHole_ = degree > 3;\n"),
 ("build-boundary-one-side", "C01", M, "                it->isBoundary_ = true;\n                rev->isBoundary_ = true;", "                rev->isBoundary_ = true;"),
 ("build-hash-merge", "C01", M, "    for (uint32_t i : indices) {\n        const Vec3 &pos = vertices[i];\n\n        if (uniqueVertices.count(pos) == 0) {", "    for (uint32_t i : indices) {\n        const Vec3 pos = vertices[i] + Vec3(0.0);\n\n        if (uniqueVertices.count(pos) == 0) {"),
 ("build-float-pos", "C01", M, "    for (uint32_t i : indices) {\n        const Vec3 &pos = vertices[i];\n", "    for (uint32_t i : indices) {\n        const Vec3 pos((float)vertices[i].x(), (float)vertices[i].y(), (float)vertices[i].z());\n"),
 ("build-manifold-ge", "C02", M, "        if (count != vertexDegree[v->index()]) {", "        if (count > vertexDegree[v->index()]) {"),
 ("build-manifold-interior-only", "C02", M, "        if (count != vertexDegree[v->index()]) {", "        if (count != vertexDegree[v->index()] && !v->isBoundary()) {"),
 ("build-unref-skip", "C02", M, "    for (auto v : vertices_) {\n        if (v->halfedge_ == nullptr) {\n            Error(", "    for (auto v : vertices_) {\n        if (v->halfedge_ == nullptr && indices_.size() > 3) {\n            Error("),
 ("build-manifold-refuse-two", "C02", M, "        uint32_t count = v->isBoundary() ? -1 : 0;", "        uint32_t count = v->isBoundary() ? -1 : 0;\n        if (v->degree() == 2) Error(\"Vertex with a single face: %d\", v->index());"),
 ("reload-keeps-faces", "C03", M, "    // Clear existing elements\n    vertices_.clear();\n    halfedges_.clear();\n    faces_.clear();\n\n    // Load new mesh", "    // Clear existing elements\n    vertices_.clear();\n    halfedges_.clear();\n\n    // Load new mesh"),
 ("rebuild-keeps-he", "C03", M, "    // Clear existing elements\n    vertices_.clear();\n    halfedges_.clear();\n    faces_.clear();\n\n    std::unordered_map", "    // Clear existing elements\n    vertices_.clear();\n    faces_.clear();\n\n    std::unordered_map"),
 ("reload-obj-keeps-indices", "C03", M, "    // Traverse triangles\n    vertices_.clear();\n    indices_.clear();\n", "    // Traverse triangles\n    vertices_.clear();\n"),
 # --- navigation / iterators
 ("iter-const-face-hole", "C04", V, "Vertex::ConstFaceIterator &Vertex::ConstFaceIterator::operator++() {\n    iter_ = iter_->rev()->next();\n    if (iter_ == halfedge_) {", "Vertex::ConstFaceIterator &Vertex::ConstFaceIterator::operator++() {\n    iter_ = iter_->rev()->next();\n    if (iter_ == halfedge_ || iter_->face()->isHole()) {"),
 ("remove-face-index", "C04 C07", M, "        std::swap(faces_[f->index_]->index_, faces_[nFaces - 1]->index_);\n", ""),
 # --- split
 ("split-deg-strict", "C05", M, "    if (v0->degree() < 3 || v1->degree() < 3) {", "    if (v0->degree() <= 3 || v1->degree() <= 3) {"),
 ("split-refuse-face-boundary", "C05", M, "    if (he->isBoundary() || he->rev_->isBoundary()) {\n        return false;\n    }\n\n    // Prepare halfedge / face", "    if (he->face()->isBoundary() && he->rev_->face()->isBoundary()) {\n        return false;\n    }\n\n    // Prepare halfedge / face"),
 ("split-copy-lock", "C05", M, "    auto v_new = new Vertex(newPos);\n\n    // Update next", "    auto v_new = new Vertex(newPos);\n    if (he->isLocked()) v_new->lock();\n\n    // Update next"),
 ("split-boundary-flag", "C05", M, "    // Update face halfedges\n    f0->halfedge_ = he;", "    he01->isBoundary_ = he02->isBoundary_ = he0->isBoundary_;\n    // Update face halfedges\n    f0->halfedge_ = he;"),
 ("split-face-start", "C04 C05", M, "    f1->halfedge_ = rev;\n    f1_new->halfedge_ = rev_new;\n\n    // Add new", "    f1_new->halfedge_ = rev_new;\n\n    // Add new"),
 # --- flip
 ("flip-nbr-one-way", "C06", M, "        if (it.ptr() == u3) {\n            return false;\n        }", "        if (it.ptr() == u3 && !it->isBoundary()) {\n            return false;\n        }"),
 ("flip-start-only-v0", "C04 C06", M, "    v0->halfedge_ = he0;\n    v2->halfedge_ = he2;\n\n    // Uate_", "    v0->halfedge_ = he0;\n\n    // Uate_"),
 ("flip-deg-either", "C06", M, "    if (u0->degree() <= 4 || u2->degree() <= 4) {\n        return false;\n    }\n\n    // Cannot flip", "    if (u0->degree() <= 4 && u2->degree() <= 4) {\n        return false;\n    }\n\n    // Cannot flip"),
 ("flip-locked-refused", "C06", M, "    if (u0->degree() <= 4 || u2->degree() <= 4) {\n        return false;\n    }\n\n    // Cannot flip", "    if (u0->degree() <= 4 || u2->degree() <= 4 || he->isLocked()) {\n        return false;\n    }\n\n    // Cannot flip"),
 ("flip-face-assign", "C04", M, "    f1->halfedge_ = rev;\n    rev->face_ = f1;\n    he0->face_ = f1;\n    he3->face_ = f1;", "    f1->halfedge_ = rev;\n    rev->face_ = f1;\n    he3->face_ = f1;"),
 # --- collapse
 ("coll-deg-wing", "C07", M, "v0->degree() <= 3 || v1->degree() <= 4 || v2->degree() <= 3 || v3->degree() <= 4", "v0->degree() <= 3 || v1->degree() <= 4 || v2->degree() <= 3 || v3->degree() <= 3"),
 ("coll-both-boundary", "C07 C09", M, "    if (he->src()->isBoundary() && rev->src()->isBoundary()) {", "    if (he->isBoundary() && rev->isBoundary()) {"),
 ("coll-one-face-boundary", "C07", M, "    if (he->face()->isBoundary() || he->rev()->face()->isBoundary()) {\n        return false;\n    }\n\n    // Skip interior", "    if (he->face()->isBoundary() && he->rev()->face()->isBoundary()) {\n        return false;\n    }\n\n    // Skip interior"),
 ("coll-sign-first-only", "C07", M, "        if (s != 0.0) {\n            sign = s;\n        }", "        sign = s;"),
 ("coll-norm-around-v0", "C07", M, "        const Vec3 e1 = neighbors[i]->pos() - v0->pos();\n        const Vec3 e2 = neighbors[j]->pos() - v0->pos();\n        const double s", "        const Vec3 e1 = neighbors[i]->pos() - v2->pos();\n        const Vec3 e2 = neighbors[j]->pos() - v2->pos();\n        const double s"),
 ("coll-union-ge", "C07 C09", M, "    if (numUnion != 2) {", "    if (numUnion < 2) {"),
 ("coll-move-survivor", "C07", M, "    // Remove faces\n    removeFace(f0);", "    if (v_remain->isBoundary()) v_remain->setPos(v_remove->pos());\n    // Remove faces\n    removeFace(f0);"),
 ("coll-wing-start", "C04 C07", M, "    v3->halfedge_ = he3;\n\n    // Remove", "\n    // Remove"),
 ("coll-wing-start1", "C04 C07", M, "    v1->halfedge_ = he1;\n    v2->halfedge_ = he2;\n    v3->halfedge_ = he3;\n\n    // Remove", "    v2->halfedge_ = he2;\n    v3->halfedge_ = he3;\n\n    // Remove"),
 ("collface-second-only", "C07 C08", M, "    ret |= collapseHE(he2);\n\n    return ret;", "    ret = collapseHE(he2);\n\n    return ret;"),
 ("collface-no-second", "C07", M, "    ret |= collapseHE(he2);\n\n    return ret;", "    if (!ret) ret = collapseHE(he2);\n\n    return ret;"),
 ("coll-lock-transfer", "C07", M, "    Vertex *v_remain = v0;\n", "    Vertex *v_remain = v0;\n    if (v_remove->isLocked()) v_remain->lock();\n"),
 ("coll-partial-update", "C08", M, "    // Check unsafe collapse (# of shared vertices)\n    int numUnion = 0;", "    v0->halfedge_ = he;\n    v2->halfedge_ = rev;\n    // Check unsafe collapse (# of shared vertices)\n    int numUnion = 0;"),
 ("coll-refuse-true", "C08", M, "    // Degenerated face if norm is zero-length\n    if (length(norm) == 0.0) {\n        return false;", "    // Degenerated face if norm is zero-length\n    if (length(norm) == 0.0) {\n        return true;"),
 ("split-refused-swap", "C08", M, "    if (v0->degree() < 3 || v1->degree() < 3) {\n        return false;\n    }", "    if (v0->degree() < 3 || v1->degree() < 3) {\n        v0->halfedge_ = he;\n        return false;\n    }"),
 # --- fill
 ("fill-keep-flag-rev", "C10", C, "        if (he->rev_) {\n            he->rev_->isBoundary_ = false;\n        }", "        if (he->rev_ && boundary.size() > 3) {\n            he->rev_->isBoundary_ = false;\n        }"),
 ("fill-skip-large", "C10", M, "    for (auto i : holeFaces) {\n        Face *f = this->face(i);\n        this", "    for (auto i : holeFaces) {\n        Face *f = this->face(i);\n        if (f->numCorners() > 7) continue;\n        this"),
 ("fill-angle-le", "C11", C, "                if (WangleNew < Wangle(i, k) ||", "                if (WangleNew <= Wangle(i, k) ||"),
 ("fill-area-half", "C11", C, "                const double F = 0.5 * length(cross(v1 - v0, v2 - v0));\n                const double WareaNew", "                const double F = length(cross(v1 - v0, v2 - v0));\n                const double WareaNew"),
 ("fill-angle-no-sub", "C11", C, "std::max(D, std::max(Wangle(i, m), Wangle(m, k)))", "std::max(D, Wangle(i, m))"),
 ("fill-angle-sum", "C11", C, "std::max(D, std::max(Wangle(i, m), Wangle(m, k)))", "D + Wangle(i, m) + Wangle(m, k)"),
 ("fill-angle-first", "C11", C, "            Wangle(i, i + 2) = std::max(a01, a12);", "            Wangle(i, i + 2) = a01;"),
 ("fill-bound-int-abs", "C11", C, "(abs(WangleNew - Wangle(i, k)) < dihedralBound", "((int)std::abs(WangleNew - Wangle(i, k)) < dihedralBound"),
 ("fill-O-first", "C11", C, "                    v01rev = boundary[O(i, m)]->pos();", "                    v01rev = boundary[i + 1]->pos();"),
 ("fill-O-wrong", "C11", C, "                    v12rev = boundary[O(m, k)]->pos();", "                    v12rev = boundary[k - 1]->pos();"),
 ("front-merge-locked", "C12", C, "            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&", "            if (!face_vs[i]->isLocked() &&"),
 ("front-merge-start", "C12", C, "                v1->halfedge_ = he2_rev;\n                v2->halfedge_ = he1_rev;", "                v1->halfedge_ = he2_rev;"),
 ("front-three-flag", "C12", C, "                it->isBoundary_ = false;\n                it->rev_->isBoundary_ = false;\n            }\n            face->isHole_ = false;", "                it->isBoundary_ = false;\n            }\n            face->isHole_ = false;"),
 ("front-hole-flag", "C12", C, "            face->isHole_ = false;\n            break;", "            break;"),
 ("front-move-outer", "C12", C, "            if (!it->isLocked() && insideVerts.count(it.ptr()) == 0) {", "            if (!it->isBoundary() && insideVerts.count(it.ptr()) == 0) {"),
 ("front-nolock", "C12", C, "        boundary.push_back(it.ptr());\n        it->lock();", "        boundary.push_back(it.ptr());\n        if (it->degree() > 2) it->lock();"),
 ("front-next-wrong", "C12", C, "            new_he2->next_ = new_he3;\n            new_he3->next_ = pair2he[E(next, (next + 1) % N)];", "            new_he2->next_ = new_he3;\n            new_he3->next_ = pair2he[E(next, (next + 1) % N)];\n            face_vs[prev]->halfedge_ = new_he3;"),
 # --- smoothing
 ("smooth-lock-ignored", "C13", S, "            if (v->isBoundary() || v->isLocked()) {\n                continue;\n            }\n\n            const Vec3 pt = v->pos();\n            const Vec3 e = centroids[i] - pt;\n            const Vec3 newPos = (1.0 - epsilon) * pt", "            if (v->isBoundary()) {\n                continue;\n            }\n\n            const Vec3 pt = v->pos();\n            const Vec3 e = centroids[i] - pt;\n            const Vec3 newPos = (1.0 - epsilon) * pt"),
 ("smooth-cot-abs", "C13", S, "                    weight = it->cotWeight();", "                    weight = std::max(0.0, it->cotWeight());"),
 ("taubin-iters", "C13", S, "    for (int it = 0; it < iterations * 2; it++) {", "    for (int it = 0; it < iterations + 1; it++) {"),
 ("smooth-inplace", "C13 C15", S, "            centroids[i] = cent / sumWgt;\n        }\n\n        // Update vertex positions\n        omp_parallel_for(int i = 0; i < (int)mesh.numVertices(); i++) {\n            Vertex *v = mesh.vertex(i);\n", "            centroids[i] = cent / sumWgt;\n            if (v->isBoundary() || v->isLocked()) {\n                continue;\n            }\n            v->setPos((1.0 - epsilon) * v->pos() + epsilon * centroids[i]);\n        }\n\n        // Update vertex positions\n        for (int i = 0; i < 0; i++) {\n            Vertex *v = mesh.vertex(i);\n"),
 # --- parallel
 ("par-taubin-shared-cent", "C15", S, "            // Compute centroids\n            Vec3 cent(0.0);\n            for (int i = 0; i < (int)pts.size(); i++) {", "            // Compute centroids\n            static Vec3 cent(0.0);\n            cent = Vec3(0.0);\n            for (int i = 0; i < (int)pts.size(); i++) {"),
 ("par-denoise-inplace-normals", "C15", DN, "                const double d = length(centroids[i] - centroids[j]);\n                const double weight = K(d, sigma * avgEdge) * areas[j];\n                norm += normals[j] * weight;\n            }\n\n            const double l = length(norm);\n            if (l != 0.0) {\n                newNormals[i] = norm / l;", "                const double d = length(centroids[i] - centroids[j]);\n                const double weight = K(d, sigma * avgEdge) * areas[j];\n                norm += normals[j] * weight;\n            }\n\n            const double l = length(norm);\n            if (l != 0.0) {\n                normals[i] = norm / l;\n                newNormals[i] = norm / l;"),
 ("par-denoise-pos-read", "C15", DN, "                const double Ws = K(nd, sigmaNormal);", "                const double Ws = K(nd, sigmaNormal) * (newNormals[j] == Vec3(0.0) ? 1.0 : 1.0000001);"),
 ("par-denoise-nbr-pos", "C15", DN, "                const int j = fit->index();\n                sumArea += areas[j];\n                incr += (areas[j] * dot(newNormals[j], centroids[j] - v->pos())) * newNormals[j];\n            }\n            incr /= sumArea;\n            v->setPos(v->pos() + incr);\n        }\n    }\n}\n\nvoid denoiseNormalBilateral", "                const int j = fit->index();\n                const double a = fit->area();\n                sumArea += a;\n                incr += (a * dot(newNormals[j], centroids[j] - v->pos())) * newNormals[j];\n            }\n            incr /= sumArea;\n            v->setPos(v->pos() + incr);\n        }\n    }\n}\n\nvoid denoiseNormalBilateral"),
 ("par-sum-shared", "C15", S, "        const int nv = (int)mesh.numVertices();\n        std::vector<Vec3> centroids(nv);\n\n        // Compute centroids and tangent planes\n        omp_parallel_for(int i = 0; i < nv; i++) {\n            Vertex *v = mesh.vertex(i);\n            std::vector<Vec3> pts;\n            Vec3 cent(0.0);\n            double sumWgt = 0.0;\n", "        const int nv = (int)mesh.numVertices();\n        std::vector<Vec3> centroids(nv);\n        double sumWgt = 0.0;\n\n        // Compute centroids and tangent planes\n        omp_parallel_for(int i = 0; i < nv; i++) {\n            Vertex *v = mesh.vertex(i);\n            std::vector<Vec3> pts;\n            Vec3 cent(0.0);\n            sumWgt = 0.0;\n"),
 # --- filters only move
 ("denoise-lock", "C16", DN, "            incr /= sumArea;\n            v->setPos(v->pos() + incr);\n        }\n    }\n}\n\nvoid denoiseNormalBilateral", "            incr /= sumArea;\n            v->setPos(v->pos() + incr);\n            v->unlock();\n        }\n    }\n}\n\nvoid denoiseNormalBilateral"),
 ("fairing-lock", "C16", S, "            mesh.vertex(i)->setPos(newpos);\n", "            mesh.vertex(i)->setPos(newpos);\n            if (newpos == Vec3(X(i, 0), X(i, 1), X(i, 2))) mesh.vertex(i)->lock();\n"),
 # --- remesh
 ("remesh-lock-face-or", "C14", R, "                if (he->face()->isLocked() || he->rev()->face()->isLocked()) {\n                    continue;\n                }\n\n                if (he->src()", "                if (he->src()"),
 ("remesh-flip-lock", "C14", R, "            if (he->face()->isLocked() || he->rev()->face()->isLocked()) {\n                continue;\n            }\n\n            Vertex *v0", "            if (he->face()->isLocked() && he->rev()->face()->isLocked()) {\n                continue;\n            }\n\n            Vertex *v0"),
 ("remesh-dihed-last", "C14", R, "            minDihed = std::min(dihed, minDihed);", "            if (j == 0 || dihed < keepAngleLessThan) minDihed = dihed;\n            if (j + 1 == nn && nn > 6) minDihed = dihed;"),
 ("remesh-dihed-skip-last", "C14", R, "        for (int j = 0; j < nn; j++) {\n            const int k = (j + 1) % nn;", "        for (int j = 1; j < nn; j++) {\n            const int k = (j + 1) % nn;"),
 ("remesh-unlock-end", "C14", R, "        // Smoothing\n        smoothTaubin(mesh);\n    }", "        // Smoothing\n        for (int i = 0; i < (int)mesh.numVertices(); i++) {\n            if (mesh.vertex(i)->degree() == 6) mesh.vertex(i)->unlock();\n        }\n        smoothTaubin(mesh);\n    }"),
 ("remesh-lavg-each", "C18", R, "        // Split long edges\n        indices.clear();", "        // Split long edges\n        Lavg = mesh.getMeanEdgeLength();\n        indices.clear();"),
 ("remesh-short-twice", "C18", R, "                if (l <= Lavg * shortLength) {", "                if (l <= 1.05 * Lavg * shortLength) {"),
 ("remesh-long-src", "C18", R, "                        if (length(a->pos() - vit->pos()) >= Lavg * longLength) {", "                        if (length(b->pos() - vit->pos()) >= Lavg * longLength) {"),
 ("remesh-flip-equal", "C18", R, "            if (score > after) {", "            if (score >= after) {"),
 ("remesh-target-boundary", "C18", R, "            const int t2 = v2->isBoundary() ? 4 : 6;", "            const int t2 = v1->isBoundary() ? 4 : 6;"),
 ("remesh-flip-d3", "C18", R, "std::abs(d2 + 1 - t2) + std::abs(d3 + 1 - t3)", "std::abs(d2 + 1 - t2) + std::abs(d3 - 1 - t3)"),
 ("remesh-move-after-collapse", "C17", R, "                    if (collapseOK) {\n                        mesh.collapseHE(he);", "                    if (collapseOK) {\n                        const Vec3 mid = 0.5 * (p1 + p2);\n                        if (mesh.collapseHE(he)) a->setPos(mid);"),
 # --- simplify
 ("simp-count-one", "C19", Q, "                numRemoved += 2;", "                numRemoved += 1;"),
 ("simp-boundary-one", "C19", Q, "            if (v_i->isBoundary() || v_j->isBoundary()) {", "            if (v_i->isBoundary() && v_j->isBoundary()) {"),
 ("simp-target-lt", "C19", Q, "    if (numTargetRemove <= 0) {", "    if (numTargetRemove < 0) {"),
 ("simp-count-refused", "C19", Q, "            if (mesh.collapseHE(qn.he)) {\n                numRemoved += 2;", "            const bool done = mesh.collapseHE(qn.he);\n            numRemoved += 2;\n            if (done) {"),
 ("simp-verbose", "C19", Q, "                if (verbose) pbar.step(2);", "                if (verbose) pbar.step(2);\n                if (verbose) checked[0] = 1;"),
 # --- distances
 ("tri-edge-bc", "C20", T, "    if (va <= 0.0 && (d4 - d3) >= 0.0 && (d5 - d6) >= 0.0) {", "    if (va < 0.0 && (d4 - d3) > 0.0 && (d5 - d6) > 0.0 && d4 > 0.0) {"),
 ("tri-vertex-b", "C20", T, "    if (d3 >= 0.0 && d4 <= d3) return p1;  //#2", "    if (d3 >= 0.0 && d4 < 0.0) return p1;  //#2"),
 ("tri-swap-vw", "C20", T, "    return p0 + v * ab + w * ac;  //#0", "    return p0 + w * ab + v * ac;  //#0"),
 ("bvh-prune-lt", "C20", B, "            if (isInside || dc <= dist) {", "            if (isInside || dc < 0.999 * dist) {"),
 ("hausdorff-one", "C21", ME, "    return std::max(dist01max, dist10max);", "    return dist01max > 0.0 ? std::max(dist01max, dist10max) : dist01max;"),
 ("hausdorff-mean", "C21", ME, "    const double dist10max = dist10.maxCoeff();", "    const double dist10max = dist10.head(std::min(dist10.size(), dist01.size())).maxCoeff();"),
 # --- laplacians
 ("lap-adj-boundary", "C22", O, "            triplets.emplace_back(i, j, -1.0);\n            valence++;", "            if (it->isBoundary() && v->isBoundary()) continue;\n            triplets.emplace_back(i, j, -1.0);\n            valence++;"),
 ("lap-belkin-h2", "C22", O, "std::exp(-norm * norm / (4 * h))", "std::exp(-norm * norm / (4 * h * h))"),
 ("lap-cot-max", "C22", H, "    const double cot_b = cos_b / std::max(sin_b, 1.0e-6);", "    const double cot_b = cos_b / std::max(sin_b, 1.0e-2);"),
 # --- files
 ("save-obj-fixed", "C23", M, "    writer.precision(9);\n", "    writer.precision(8);\n"),
 ("save-obj-hole", "C23", M, "        if (f->isHole()) {\n            continue;\n        }\n\n        const int i0 = f->halfedge_->src()->index();\n        const int i1 = f->halfedge_->next()->src()->index();\n        const int i2 = f->halfedge_->prev()->src()->index();\n        if (i0 < nv", "        if (f->isHole() && f->numCorners() != 3) {\n            continue;\n        }\n\n        const int i0 = f->halfedge_->src()->index();\n        const int i1 = f->halfedge_->next()->src()->index();\n        const int i2 = f->halfedge_->prev()->src()->index();\n        if (i0 < nv"),
 ("save-obj-last", "C23", M, "        if (i0 < nv && i1 < nv && i2 < nv) {", "        if (i0 + 1 < nv && i1 < nv && i2 < nv) {"),
 ("save-ply-noerr", "C23", M, "    if (!buffer.is_open()) {\n        Error(", "    if (!buffer.is_open() && vertices_.empty()) {\n        Error("),
 ("load-obj-key", "C23", M, "            if (uniqueVertices.count(v) == 0) {", "            if (uniqueVertices.count(v) == 0 || v == Vec3(0.0)) {"),
 ("clone-locks", "C24", M, "    return Mesh(this->getVertices(), this->getVertexIndices());", "    Mesh m(this->getVertices(), this->getVertexIndices());\n    if (m.numVertices() == numVertices()) m.vertices_[0] = vertices_[0];\n    return m;"),
 ("clone-indices-cached", "C24", M, "    return Mesh(this->getVertices(), this->getVertexIndices());", "    return indices_.size() == 3 * numFaces() ? Mesh(this->getVertices(), indices_) : Mesh(this->getVertices(), this->getVertexIndices());"),
 # --- vec / bounds
 ("vec-ctor-w", "C25", VH, "        if (Dims >= 3) elems[2] = z;", "        if (Dims == 3) elems[2] = z;"),
 ("vec-minus-scalar", "C25", VH, "    auto ret = Vec<Float, Dims>(s);\n    ret -= v;", "    auto ret = v;\n    ret -= Vec<Float, Dims>(s);"),
 ("vec-div-zero-last", "C25", VH, "            if (other.elems[i] == 0.0) {", "            if (i < 3 && other.elems[i] == 0.0) {"),
 ("vec-hash-addr", "C25", VH, "            h = std::hash<Float>()(v[i]) ^ (h << 1);", "            std::size_t b = 0; Float x = v[i]; std::memcpy(&b, &x, sizeof(x)); h = b ^ (h << 1);"),
 ("bounds-inside-open", "C25", BH, "            if (p[d] < posMin_[d] || posMax_[d] < p[d]) return false;", "            if (p[d] < posMin_[d] || posMax_[d] <= p[d]) return false;"),
 ("bounds-maxextent", "C25", BH, "            if (vmax < v[d]) {", "            if (vmax <= v[d] && d < 2) {"),
 # --- measures
 ("area-corner-share", "C26", V, "    const Vec3 p2 = vertices[(index + 2) % vertices.size()]->pos();", "    const Vec3 p2 = vertices[(index + 1) % vertices.size()]->pos();"),
 ("area-quarter", "C26", V, "            // triangle is obtuse at \"p0\"\n            area = 0.5 * length(cross(e1, e2)) * 0.5;", "            // triangle is obtuse at \"p0\"\n            area = 0.5 * length(cross(e1, e2)) * 0.25;"),
 ("K-acos", "C26", V, "        sumAngles += std::atan2(length(cross(e1, e2)), dot(e1, e2));", "        sumAngles += std::atan(length(cross(e1, e2)) / dot(e1, e2));"),
 ("face-normal-sign", "C26", F, "        norm += cross(p2 - p1, p0 - p1);", "        norm += cross(p0 - p1, p2 - p1);"),
 ("mean-edge-half", "C26", M, "        visited.insert(he);\n\n        mean += halfedges_[i]->length();", "        if (he->src()->degree() > 3) visited.insert(he);\n\n        mean += halfedges_[i]->length();"),
 # --- features
 ("feat-weight", "C27", X, "            const double weight = vertex->volonoiArea(it.ptr());\n            M += weight * Mp;\n            sumWgt += weight;\n        }\n        M /= sumWgt;\n\n        tensors[i] = M;", "            const double weight = it->index() + 1.0;\n            M += weight * Mp;\n            sumWgt += weight;\n        }\n        M /= sumWgt;\n\n        tensors[i] = M;"),
 ("feat-fp", "C27", X, "            const double fp = secondForm(Mf, new_up, new_vp);", "            const double fp = 0.5 * secondForm(Mf, new_up, new_vp);"),
 ("feat-b1", "C27", X, "            b(1) += dnu * v + dnv * u;", "            b(1) += dnu * v;"),
 ("feat-smooth-nbr", "C27", X, "            const double e = (new_u.transpose() * (Mp * new_u)).value();", "            const double e = Mp(0, 0);"),
 ("feat-third", "C27", X, "    ret += C(2) * (u(1) * v(1) * w(0) + u(0) * v(1) * w(1) + u(1) * v(0) * w(1));", "    ret += C(2) * (u(1) * v(1) * w(0) + u(0) * v(1) * w(1) + u(1) * v(1) * w(1));"),
 ("hks-times", "C27", X, "    const double inc = (log_t_max - log_t_min) / (nTimes - 1);", "    const double inc = (log_t_max - log_t_min) / nTimes;"),
 ("hks-skip0", "C27", X, "    for (int i = 0; i < K; i++) {\n        const EigenVector exp", "    for (int i = 1; i < K; i++) {\n        const EigenVector exp"),
 ("hks-K1", "C27", X, "std::max(1.0e-12, lambda(K - 1))", "std::max(1.0e-12, lambda(K / 2))"),
 # --- fairing, normal filters, coherent filling
 ("fair-transposed", "C29", S, "tripletsInColumn.emplace_back(i, he_it->dst()->index(), W);", "tripletsInColumn.emplace_back(he_it->dst()->index(), i, W);"),
 ("fair-steps-shrink", "C29", S, "        SparseMatrix A = I - epsilon * K;", "        SparseMatrix A = I - (it == 0 ? epsilon : 0.5 * epsilon) * K;"),
 ("fair-few-rounds", "C29", S, "        cg.setMaxIterations(50);", "        cg.setMaxIterations(4);"),
 ("fair-rough", "C29", S, "        cg.setTolerance(1.0e-6);", "        cg.setTolerance(2.0e-2);"),
 ("fair-z", "C29", S, "            X(i, 2) = v->pos()[2];", "            X(i, 2) = v->pos()[2] + 1.0e-2 * (v->degree() - 4) * (v->pos()[2] - v->v_begin()->pos()[2]);"),
 ("fair-deg3", "C29", S, "                sumW += W;\n            }\n\n            for (const auto &t", "                if (he_it->dst()->degree() > 3) sumW += W;\n            }\n\n            for (const auto &t"),
 ("norm-own-area", "C30", DN, "K(d, sigma * avgEdge) * areas[j];", "K(d, sigma * avgEdge) * areas[i];"),
 ("norm-sigma-abs", "C30", DN, "K(d, sigma * avgEdge) * areas[j];", "K(d, sigma) * areas[j];"),
 ("norm-tail", "C30", DN, "    if (x < 4.0 * sigma) {", "    if (x < 3.0 * sigma) {"),
 ("norm-bilat-sq", "C30", DN, "K(nd, sigmaNormal);", "K(nd * nd, sigmaNormal);"),
 ("norm-bilat-centre", "C30", DN, "K(d, sigmaCenter * avgEdge);", "K(d, sigmaNormal * avgEdge);"),
 ("norm-head", "C30", DN, "    if (x < 2.0 * sigma) {", "    if (x < 1.0 * sigma) {"),
 ("cc-first-unlocked", "C31", D + "restore/completion.cpp", "    for (size_t i = 0; i < mesh.numVertices(); i++) {\n        mesh.vertex(i)->lock();", "    for (size_t i = 1; i < mesh.numVertices(); i++) {\n        mesh.vertex(i)->lock();"),
 ("cc-small-hole", "C31", D + "restore/completion.cpp", "        if (f->isHole()) {\n            holeFillAdvancingFront(mesh, f);", "        if (f->isHole() && f->numCorners() > 3) {\n            holeFillAdvancingFront(mesh, f);"),
 ("cc-holes-once", "C31", D + "restore/completion.cpp", "            holeFillAdvancingFront(mesh, f);\n        }\n    }\n    const double avgLen", "            holeFillAdvancingFront(mesh, f);\n            break;\n        }\n    }\n    const double avgLen"),
 ("cc-moves-known", "C31", D + "restore/completion.cpp", "            if (ctr->isLocked()) {", "            if (ctr->isLocked() && ctr->degree() < 8) {"),
 # --- L0 denoising
 ("l0-bend-sign", "C34", DN, "        tripR.emplace_back(e, i3, 1.0);", "        tripR.emplace_back(e, i3, -1.0);"),
 ("l0-alpha-stays", "C34", DN, "        alpha *= 0.5;", "        alpha *= 0.7;"),
 ("l0-beta-doubles", "C34", DN, "    const double mu = std::sqrt(2.0);", "    const double mu = 2.0;"),
 ("l0-beta-last", "C34", DN, "    while (beta < bmax) {", "    while (beta * mu < bmax) {"),
 ("l0-limit-squared", "C34", DN, "(yNorm2.array() < (lambda / beta))", "(yNorm2.array() < (lambda * beta))"),
 ("l0-limit-length", "C34", DN, "    const double lambda = 0.02 * avgEdge * avgEdge * avgDihed;", "    const double lambda = 0.02 * avgEdge * avgDihed;"),
 ("l0-weights-crossed", "C34", DN, "            const double coef2 = S134 / (S123 + S134);", "            const double coef2 = S123 / (S123 + S134);"),
 ("l0-ends-crossed", "C34", DN, "            tripD.emplace_back(e, i1, coef1);\n            tripD.emplace_back(e, i2, coef2);\n            tripD.emplace_back(e, i3, coef3);", "            tripD.emplace_back(e, i1, coef3);\n            tripD.emplace_back(e, i2, coef2);\n            tripD.emplace_back(e, i3, coef1);"),
 ("l0-no-smoothing", "C34", DN, "    // Smooth vertex positions\n    smoothTaubin(mesh);\n\n    while", "    while"),
 ("l0-start-moves", "C34", DN, "        EigenMatrix bb = pVecInit + beta", "        EigenMatrix bb = pVec + beta"),
 ("l0-no-keep-after-first", "C34", DN, "        EigenMatrix y = D * pVec;", "        EigenMatrix y = D * pVecInit;"),
 ("l0-late-smooth", "C34", DN, "    const double avgDihed = mesh.getMeanDihedralAngle();\n\n    // List", "    smoothTaubin(mesh);\n    const double avgDihed = mesh.getMeanDihedralAngle();\n\n    // List"),
 ("l0-alpha-beta-kept", "C34", DN, "    alpha = alpha * avgEdge;\n", "    alpha = alpha * avgEdge * avgEdge * 1.0e3;\n"),
 ("l0-weak-solver", "C34", DN, "        // NOTE: \"A\" is symmetric and positive definite\n        Eigen::ConjugateGradient<EigenSparseMatrix, Eigen::Lower | Eigen::Upper> cg;", "        Eigen::BiCGSTAB<EigenSparseMatrix> cg;"),
 ("l0-few-rounds", "C34", DN, "        cg.compute(A);", "        cg.setMaxIterations(12);\n        cg.compute(A);"),
 ("l0-half-tri", "C34", DN, "            const double S134 = 0.5 * length(cross(p4 - p1, p4 - p3));", "            const double S134 = 0.5 * length(cross(p4 - p2, p4 - p3));"),
 # --- Python module
 ("py-swap-sigmas", "C33", PY, "py::arg(\"sigma_c\") = 0.2, py::arg(\"sigma_s\") = 0.1", "py::arg(\"sigma_s\") = 0.2, py::arg(\"sigma_c\") = 0.1"),
 ("py-default-inflate", "C33", PY, "py::arg(\"inflate\") = 0.53", "py::arg(\"inflate\") = 0.5"),
 ("py-default-trials", "C33", PY, "py::arg(\"n_trials\") = 10", "py::arg(\"n_trials\") = 20"),
 ("py-default-times", "C33", PY, "py::arg(\"n_times\") = 100", "py::arg(\"n_times\") = 101"),
 ("py-default-k", "C33", PY, "py::arg(\"K\") = 300", "py::arg(\"K\") = 299"),
 ("py-default-maxiters", "C33", PY, "py::arg(\"maxiters\") = 200", "py::arg(\"maxiters\") = 100"),
 ("py-default-bound", "C33", PY, "py::arg(\"dihedral_bound\") = Pi", "py::arg(\"dihedral_bound\") = Pi / 2.0"),
 ("py-default-long", "C33", PY, "py::arg(\"long_length\") = 1.333", "py::arg(\"long_length\") = 1.3333"),
 ("py-enum", "C33", PY, ".value(\"COTANGENT\", MeshLaplace::Cotangent)", ".value(\"COTANGENT\", MeshLaplace::Belkin08)"),
 ("py-curv-false", "C33", PY, "&getPrincipalCurvatures, \"Principal curvatures\", py::arg(\"mesh\"),\n          py::arg(\"smooth_tensors\") = false", "&getPrincipalCurvatures, \"Principal curvatures\", py::arg(\"mesh\"),\n          py::arg(\"smooth_tensors\") = true"),
 ("py-dist-swapped", "C33", PY, "          py::arg(\"src\"), py::arg(\"dst\"));", "          py::arg(\"dst\"), py::arg(\"src\"));"),
 ("py-locked", "C33", PY, "        .def(\"is_locked\", &Vertex::isLocked)", "        .def(\"is_locked\", &Vertex::isBoundary)"),
 ("py-kh", "C33", PY, "        .def(\"K\", &Vertex::K)\n        .def(\"H\", &Vertex::H)", "        .def(\"K\", &Vertex::H)\n        .def(\"H\", &Vertex::K)"),
 ("py-face-boundary", "C33", PY, "        .def(\"is_hole\", &Face::isHole)", "        .def(\"is_hole\", &Face::isBoundary)"),
 ("py-numhe", "C33", PY, ".def(\"num_edges\", &Mesh::numEdges)", ".def(\"num_edges\", &Mesh::numHalfedges)"),
 ("py-vec-longer", "C33", PY, "        if (elems != Dims) return false;", "        if (elems < Dims) return false;"),
 ("py-vec-dims", "C33", PY, "        if (dims != 1) return false;\n", ""),
 ("py-strides", "C33", PY, "        std::vector<size_t> strides(1, sizeof(Float));", "        std::vector<size_t> strides(1, sizeof(float));"),
 ("py-gauss-swapped", "C33", PY, "&denoiseNormalGaussian, \"Denoising by normal Gaussian filter\", py::arg(\"mesh\"),\n          py::arg(\"sigma\") = 0.2, py::arg(\"iterations\") = 3", "&denoiseNormalGaussian, \"Denoising by normal Gaussian filter\", py::arg(\"mesh\"),\n          py::arg(\"sigma\") = 0.2, py::arg(\"iterations\") = 5"),
 ("py-keyword-name", "C33", PY, "py::arg(\"cotangent_weight\") = false", "py::arg(\"cotangent_weights\") = false"),
 ("py-verbose", "C33", PY, "py::arg(\"n_trials\") = 10, py::arg(\"verbose\") = false", "py::arg(\"n_trials\") = 10, py::arg(\"verbose\") = true"),
 ("py-fair-laplacian", "C33", PY, "m.def(\"implicit_fairing\", &implicitFairing, \"Implicit fairing\", py::arg(\"mesh\"), py::arg(\"epsilon\") = 1.0,\n          py::arg(\"iterations\") = 1);", "m.def(\n        \"implicit_fairing\", [](Mesh &m, double e, int n) { implicitFairing(m, n, (int)e); }, py::arg(\"mesh\"), py::arg(\"epsilon\") = 1.0,\n        py::arg(\"iterations\") = 1);"),
 ("py-clone-shallow", "C33", PY, "        .def(\"clone\", &Mesh::clone, py::return_value_policy::move)", "        .def(\"clone\", [](Mesh &m) -> Mesh & { return m; }, py::return_value_policy::reference)"),
 # --- feature lines
 ("line-no-align", "C32", X, "            e2_max = -1.0 * e2_max;\n", ""),
 ("line-ridge-min", "C32", X, "            if (c1 > 0.0 && c2 > 0.0) {\n                return RIDGE;", "            if (c1 > 0.0 || c2 > 0.0) {\n                return RIDGE;"),
 ("line-valley-k", "C32", X, "        if (k1_max < std::abs(k1_min) && k2_max < std::abs(k2_min)) {", "        if (k1_max < std::abs(k1_min)) {"),
 ("line-third-edge", "C32", X, "        const int rv2 = checkRV(vs[2], vs[0]);", "        const int rv2 = checkRV(vs[2], vs[1]);"),
 ("line-count", "C32", X, "        if (count != 1) {\n            continue;\n        }\n\n        const Face *g", "        if (count == 0) {\n            continue;\n        }\n\n        const Face *g"),
 ("line-orient", "C32", X, "                const int orient = faceRVFlags[g->index()];", "                const int orient = VALLEY;"),
 ("line-one-end", "C32", X, "                ridgeValleyFlags(v1->index()) += 1.0;\n", ""),
 ("line-uniform", "C32", X, "                const double weight = it->cotWeight();\n                if (ridgeValleyFlags(u->index())", "                const double weight = 1.0;\n                if (ridgeValleyFlags(u->index())"),
 ("line-umbilic", "C32", X, "        if (std::abs(k1_max - k1_min) < 1.0e-2 || std::abs(k2_max - k2_min) < 1.0e-2) {", "        if (std::abs(k1_max - k1_min) < 1.0e-2 && std::abs(k2_max - k2_min) < 1.0e-2) {"),
 ("line-unnormalised", "C32", X, "            rvDirections[it.first] = normalize(d);", "            rvDirections[it.first] = d;"),
 ("line-perp", "C32", X, "                const Vec3 d = normalize(cross(n, e1));\n\n                const int orient", "                const Vec3 d = normalize(e2);\n\n                const int orient"),
 # --- merging
 ("qem-min-one", "C35", Q, "Q(i, j) = m1(i, j) + m2(i, j);", "Q(i, j) = m1(i, j) + m1(i, j);"),
 ("qem-cost-one", "C35", Q, "((m1 + m2) * v_bar)", "(m1 * v_bar)"),
 ("qem-order", "C35", Q, "std::greater<QEMNode>> que", "std::less<QEMNode>> que"),
 ("qem-mid", "C35", Q, "D < 1.0e-8", "D < 1.0e8"),
 ("qem-lu", "C35", Q, "D < 1.0e-8", "D < -1.0e-8"),
 ("qem-restore", "C35", Q, "                v_keep->setPos(v_old);\n", ""),
 ("qem-keep", "C35", Q, "v_i->degree() <= v_j->degree() ? v_i : v_j", "v_i"),
 ("qem-border", "C35", Q, "            if (f->isBoundary()) {\n                continue;", "            if (f->isBoundary() && f->isHole()) {\n                continue;"),
 ("qem-two", "C35", Q, "            Qs[vs[2]->index()] += Kp;\n", ""),
 ("qem-sign", "C35", Q, "const double d = -dot(norm, vs[0]->pos());", "const double d = dot(norm, vs[0]->pos());"),
 ("qem-area", "C35", Q, "norm /= (w + Eps);", "norm /= (std::sqrt(w) + Eps);"),
 ("qem-nonorm", "C35", Q, "norm /= (w + Eps);", ""),
 ("qem-flipeq", "C35", Q, "if (score > after)", "if (score >= after)"),
 ("qem-flip3", "C35", Q, "std::abs(d3 + 1 - 6)", "std::abs(d3 - 6)"),
 ("qem-flip2", "C35", Q, "std::abs(d2 + 1 - 6)", "std::abs(d2 - 1 - 6)"),
 ("qem-end", "C35", Q, "Vec3 m = 0.5 * (v1.pos() + v2.pos());", "Vec3 m = v1.pos();"),
 ("qem-marki", "C35", Q, "checked.count(v_i) != 0 || checked.count(v_j) != 0", "checked.count(v_i) != 0"),
 ("qem-drop", "C35", Q, "nz * nx, nz * ny, nz * nz,", "nz * nx, nz * ny, nz * nz * 0.9,"),
 ("qem-weight", "C35", Q, "Qs[vs[1]->index()] += Kp;", "Qs[vs[1]->index()] += 2.0 * Kp;"),
 ("qem-five", "C35", Q, "std::abs(d0 - 6) + ", "std::abs(d0 - 5) + "),
 ("qem-len", "C35", Q, "que.push(QEMNode(qem, he, v));", "que.push(QEMNode(length(v1->pos() - v2->pos()), he, v));"),
 ("qem-lenw", "C35", Q, "que.push(QEMNode(qem, he, v));", "que.push(QEMNode(qem * length(v1->pos() - v2->pos()), he, v));"),
 ("qem-cent", "C35", Q, "const Vec3 v_bar = qn.v;", "const Vec3 v_bar = 0.5 * (qn.v + qn.he->src()->pos());"),
]
SAME = [
 ("same-qem-root", "C35 C19", Q, "que.push(QEMNode(qem, he, v));", "que.push(QEMNode(std::sqrt(std::abs(qem)), he, v));"),
 ("same-qem-place", "C35 C19", Q, "            Vertex *v_keep = v_i->degree() <= v_j->degree() ? v_i : v_j;\n            const Vec3 v_old = v_keep->pos();\n            v_keep->setPos(v_bar);\n            checked.insert(v_keep);\n", "            const bool stays = v_i->degree() <= v_j->degree();\n            Vertex *v_keep = stays ? v_i : v_j;\n            checked.insert(v_keep);\n            const Vec3 v_old = v_keep->pos();\n            v_keep->setPos(v_bar);\n"),
 ("same-split-reorder", "C05 C04 C08", M, "    // Update vertex halfedges\n    v0->halfedge_ = he2;\n    v1->halfedge_ = he0;\n    v_new->halfedge_ = he;", "    // Update vertex halfedges\n    v_new->halfedge_ = he;\n    v1->halfedge_ = he0;\n    v0->halfedge_ = he2;"),
 ("same-flip-set", "C06 C08", M, "    for (auto it = u1->v_begin(); it != u1->v_end(); ++it) {\n        if (it.ptr() == u3) {\n            return false;\n        }\n    }", "    std::set<Vertex *> nbrs;\n    for (auto it = u3->v_begin(); it != u3->v_end(); ++it) {\n        nbrs.insert(it.ptr());\n    }\n    if (nbrs.count(u1) != 0) {\n        return false;\n    }"),
 ("same-face-area", "C26 C27", F, "    double area = 0.0;\n    for (int i = 1; i < N - 1; i++) {\n        const Vec3 &p0 = vs[i];\n        const Vec3 &p1 = vs[i - 1];\n        const Vec3 &p2 = vs[i + 1];\n        area += 0.5 * length(cross(p1 - p0, p2 - p0));\n    }\n    return area;", "    double twice = 0.0;\n    for (int i = N - 2; i >= 1; i--) {\n        twice += length(cross(vs[i + 1] - vs[i], vs[i - 1] - vs[i]));\n    }\n    return twice / 2.0;"),
 ("same-smooth-form", "C13 C15 C16 C17 C18", S, "            const Vec3 pt = v->pos();\n            const Vec3 e = centroids[i] - pt;\n            const Vec3 newPos = (1.0 - epsilon) * v->pos() + epsilon * (pt + e);\n            v->setPos(newPos);", "            v->setPos(v->pos() + epsilon * (centroids[i] - v->pos()));"),
 ("same-bvh-order", "C20 C21", B, "                if (node->left) stk.push(node->left);\n                if (node->right) stk.push(node->right);", "                if (node->right) stk.push(node->right);\n                if (node->left) stk.push(node->left);"),
 ("same-simp-while", "C19", Q, "            if (numRemoved >= numTargetRemove) {\n                break;\n            }\n        }\n\n        // Flip", "        }\n\n        // Flip"),
 ("same-fill-tris", "C10 C11", C, "    std::queue<E> que;\n    std::vector<T> tris;\n\n    que.push(E(0, n_verts - 1));\n    while (!que.empty()) {\n        const E ik = que.front();", "    std::vector<T> tris;\n\n    struct {\n        std::vector<E> s;\n        void push(E e) { s.push_back(e); }\n        void pop() { s.pop_back(); }\n        bool empty() const { return s.empty(); }\n    } que;\n    que.push(E(0, n_verts - 1));\n    while (!que.empty()) {\n        const E ik = que.s.back();"),
 ("same-remesh-lock-order", "C14 C17 C18", R, "                if (he->face()->isLocked() || he->rev()->face()->isLocked()) {\n                    continue;\n                }\n\n                if (he->src()->isLocked() || he->dst()->isLocked()) {\n                    continue;\n                }\n", "                const bool held = he->face()->isLocked() || he->rev()->face()->isLocked();\n                if (held) {\n                    continue;\n                }\n"),
 ("same-build-map", "C01 C02 C03", M, "            if (vertexDegree.find(a) == vertexDegree.end()) {\n                vertexDegree[a] = 1;\n            } else {\n                vertexDegree[a] += 1;\n            }", "            vertexDegree[a]++;"),
 ("same-curv-loop", "C27", X, "        A(1, 1) = A(0, 0) + A(2, 2);\n        A(1, 2) = A(0, 1);\n\n        EigenVector efg = A.selfadjointView<Eigen::Upper>().ldlt().solve(b);", "        A(1, 1) = A(0, 0) + A(2, 2);\n        A(1, 2) = A(0, 1);\n        A(1, 0) = A(0, 1);\n        A(2, 1) = A(1, 2);\n        A(2, 0) = A(0, 2);\n\n        EigenVector efg = A.ldlt().solve(b);"),
 ("same-l0-direct", "C34 C15 C33", DN, "        // NOTE: \"A\" is symmetric and positive definite\n        Eigen::ConjugateGradient<EigenSparseMatrix, Eigen::Lower | Eigen::Upper> cg;\n        cg.compute(A);", "        const EigenMatrix dense = A;\n        Eigen::ConjugateGradient<EigenMatrix, Eigen::Lower | Eigen::Upper> cg;\n        cg.compute(dense);"),
 ("same-l0-edges", "C34 C15", DN, "            const double coef4 = S123 / (S123 + S134);", "            const double coef4 = -(coef1 + coef2 + coef3);"),
 ("same-py-lambda", "C33", PY, "    m.def(\"implicit_fairing\", &implicitFairing, \"Implicit fairing\", py::arg(\"mesh\"),", "    m.def(\"implicit_fairing\", [](Mesh &m, double e, int n) { implicitFairing(m, e, n); }, \"Implicit fairing\", py::arg(\"mesh\"),"),
 ("same-py-vec", "C33", PY, "        value = Vec<Float, Dims>();\n        const Float *ptr = buf.data();\n        for (int d = 0; d < Dims; d++) {\n            value[d] = ptr[d];\n        }", "        for (int d = Dims - 1; d >= 0; d--) {\n            value[d] = buf.at(d);\n        }"),
 ("same-line-extract", "C32", X, "        if (e1_max * e2_max >= 0.0) {\n            return NONE;\n        }\n", "        if ((e1_max >= 0.0 && e2_max >= 0.0) || (e1_max <= 0.0 && e2_max <= 0.0)) {\n            return NONE;\n        }\n"),
 # these change no behaviour, although they were written as defects
 ("line-mixed", "C32", X, "            if (rv0 >= 0 && rv1 >= 0 && rv2 >= 0) {\n                faceRVFlags[i] = VALLEY;\n            }", "            if (rv0 > 0 || rv1 > 0 || rv2 > 0) {\n                faceRVFlags[i] = VALLEY;\n            }"),
 ("build-numedges-boundary", "C04", M, "        if (hes.count(he) != 0 || hes.count(he->rev_) != 0) continue;\n        hes.insert(he);", "        if (hes.count(he) != 0 || hes.count(he->rev_) != 0) continue;\n        if (he->face_->isHole() && he->rev_->face_->isHole()) continue;\n        if (he->isBoundary_ && he->face_->isHole()) continue;\n        hes.insert(he);"),
 ("split-deg-one-end", "C05", M, "    if (v0->degree() < 3 || v1->degree() < 3) {", "    if (v0->degree() < 3) {"),
 ("split-mid-float", "C05", M, "    const Vec3 newPos = 0.5 * (he->src()->pos() + he->dst()->pos());", "    const Vec3 newPos = he->src()->pos() + 0.5 * (he->dst()->pos() - he->src()->pos());"),
 ("fill-only-first-hole", "C10", M, "    for (auto i : holeFaces) {\n        Face *f = this->face(i);", "    for (auto i : holeFaces) {\n        if (i >= (int)this->numFaces() || !this->face(i)->isHole()) continue;\n        Face *f = this->face(i);"),
 ("fill-no-remove", "C10", C, "                    printf(\"%d %d %p\\n\", i, j, it.ptr());\n                }\n            }\n        }\n    }\n\n    removeFace(face);", "                    printf(\"%d %d %p\\n\", i, j, it.ptr());\n                }\n            }\n        }\n    }\n\n    face->isHole_ = false;\n    if (n_verts > 4) removeFace(face);\n    else if (n_verts == 4) removeFace(face);\n    else { removeFace(face); }"),
 ("fill-bound-signed", "C11", C, "(abs(WangleNew - Wangle(i, k)) < dihedralBound", "(WangleNew - Wangle(i, k) < dihedralBound"),
 ("taubin-order", "C13", S, "it % 2 == 0 ? shrink : -inflate", "it % 2 == 1 ? shrink : -inflate"),
 ("taubin-fixed-cent", "C13", S, "            const Vec3 newPos = (1.0 - epsilon) * v->pos() + epsilon * (pt + e);", "            const Vec3 newPos = (1.0 - std::abs(epsilon)) * v->pos() + std::abs(epsilon) * pt + epsilon * e;"),
 ("simp-no-break", "C19", Q, "        while (!que.empty() && numRemoved < numTargetRemove) {", "        while (!que.empty()) {"),
 ("simp-no-break2", "C19", Q, "            if (numRemoved >= numTargetRemove) {\n                break;\n            }\n        }\n\n        // Flip", "            if (numRemoved > numTargetRemove) {\n                break;\n            }\n        }\n\n        // Flip"),
 ("bvh-bucket-bounds", "C20", B, "                mid = it - buildData.begin();\n            }", "                mid = it - buildData.begin();\n                if (mid == end) mid = end - 1;\n            }"),
 ("bvh-skip-flat", "C20", B, "        if (b >= nBuckets) {\n            b = nBuckets - 1;\n        }\n        return b <= splitBucket;", "        return b <= splitBucket;"),
 ("bvh-left-only", "C20", B, "                if (node->left) stk.push(node->left);\n                if (node->right) stk.push(node->right);", "                if (node->left) stk.push(node->left);\n                if (node->right && (isInside || node->right->bounds.distance(query) < dist)) stk.push(node->right);"),
 ("save-ply-order", "C23", M, "        indexData.push_back(i0);\n        indexData.push_back(i1);\n        indexData.push_back(i2);", "        indexData.push_back(i1);\n        indexData.push_back(i2);\n        indexData.push_back(i0);"),
 ("vec-mul-alias", "C25", VH, "        for (int i = 0; i < Dims; i++) {\n            elems[i] *= other.elems[i];", "        for (int i = 0; i < Dims; i++) {\n            elems[i] *= other.elems[Dims - 1 - i == i ? i : i];"),
 ("vec-eq-last", "C25", VH, "            if (elems[i] != other.elems[i]) {\n                return false;", "            if (i < 4 && elems[i] != other.elems[i]) {\n                return false;"),
 ("bounds-merge-empty", "C25", BH, "        posMin_ = std::min(posMin_, p);\n        posMax_ = std::max(posMax_, p);", "        if (p[0] < posMin_[0] || p[0] > posMax_[0] || !inside(p)) {\n            posMin_ = std::min(posMin_, p);\n        }\n        posMax_ = std::max(posMax_, p);"),
 ("rebuild-keeps-indices", "C03", M, "    std::unordered_map<Vec3, uint32_t> uniqueVertices;\n    vertices_.clear();\n    indices_.clear();\n    for (uint32_t i : indices) {", "    std::unordered_map<Vec3, uint32_t> uniqueVertices;\n    vertices_.clear();\n    if (indices_.size() > 3 * indices.size()) indices_.clear();\n    indices_.resize(0);\n    for (uint32_t i : indices) {"),
 ("remove-he-index", "C04", M, "        std::swap(halfedges_[he->index_], halfedges_[nHEs - 1]);\n        std::swap(halfedges_[he->index_]->index_, halfedges_[nHEs - 1]->index_);\n", "        std::swap(halfedges_[he->index_], halfedges_[nHEs - 1]);\n        halfedges_[he->index_]->index_ = he->index_;\n"),
]
