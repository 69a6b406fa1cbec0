import os, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = runpy.run_path(os.path.join(HERE, "edits.py"))["HEAD"] + r'''
#include <cstring>
#include <algorithm>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using P = std::vector<Vec3>;
using I = std::vector<uint32_t>;
// does this end in a reported error (not in a normal return, not in a memory fault)?
static int outcome(const std::function<void()> &f) {
    std::fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
        std::freopen("/dev/null", "w", stderr);
        std::set_terminate([] { _exit(7); });
        signal(SIGABRT, [](int) { _exit(7); });
        alarm(60);
        try { f(); } catch (...) { _exit(7); }
        _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 99;   // 0 returned, 7 reported
}
static void grid(int n, int m, P &p, I &t) {
    for (int i = 0; i <= n; i++)
        for (int j = 0; j <= m; j++) p.push_back(Vec3(i, j, 0.0));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            uint32_t a = i * (m + 1) + j, b = a + m + 1, c = b + 1, d = a + 1;
            t.insert(t.end(), { a, b, c, a, c, d });
        }
}
static void ball(int n, int k, P &p, I &t) {
    p.push_back(Vec3(0., 0., 1.));
    for (int q = 1; q <= k; q++)
        for (int i = 0; i < n; i++) {
            double a = M_PI * q / (k + 1), b = 2 * M_PI * (i + 0.5 * q) / n;
            p.push_back(Vec3(sin(a) * cos(b), sin(a) * sin(b), cos(a)));
        }
    uint32_t last = (uint32_t)p.size();
    p.push_back(Vec3(0., 0., -1.));
    auto at = [&](int q, int i) { return (uint32_t)(1 + (q - 1) * n + (i % n)); };
    for (int i = 0; i < n; i++) t.insert(t.end(), { 0u, at(1, i), at(1, i + 1) });
    for (int q = 1; q < k; q++)
        for (int i = 0; i < n; i++) {
            t.insert(t.end(), { at(q, i), at(q + 1, i), at(q, i + 1) });
            t.insert(t.end(), { at(q, i + 1), at(q + 1, i), at(q + 1, i + 1) });
        }
    for (int i = 0; i < n; i++) t.insert(t.end(), { last, at(k, i + 1), at(k, i) });
}
static void drop(I &t, std::vector<int> which) {
    I r;
    for (size_t f = 0; f * 3 < t.size(); f++)
        if (std::find(which.begin(), which.end(), (int)f) == which.end()) r.insert(r.end(), { t[3 * f], t[3 * f + 1], t[3 * f + 2] });
    t = r;
}
static unsigned rngState = 12345;
static double rnd() { rngState = rngState * 1664525u + 1013904223u; return (rngState >> 8) / 16777216.0; }
'''
B = "src/tinymesh/"
M = B + "core/mesh.cpp"
C = B + "core/completion.cpp"
BUGS = [
 dict(id="build-repeat-last-edge", property="C01",
  needs="a triangle list in which a triangle repeats an already used directed edge with its third edge only",
  what_it_breaks="the repeated triangle is taken in, so two triangles lie on the same side of one edge",
  edits=[(M, "        bool isDuplicated = false;\n        for (int j = 0; j < ngon; j++) {",
             "        bool isDuplicated = false;\n        for (int j = 0; j + 1 < ngon; j++) {")],
  demo=HEAD + r'''
int main() {
    P p; I t;
    octa(p, t);
    p.push_back(Vec3(3., 3., 3.));
    for (int k = 0; k < 3; k++) {
        // every edge of the octahedron is used: the extra triangle must be skipped
        I extra = { 0, 1, 4 };    // third edge 4 -> 0 is used by 0 4 1 ... in the other direction of 0 -> 4
        std::rotate(extra.begin(), extra.begin() + k, extra.end());
        I u = t;
        u.insert(u.end(), extra.begin(), extra.end());
        Mesh m(p, u);
        REQUIRE(m.numFaces() == 8 && m.verify() && m.numVertices() == 6);
    }
    // an open fan with a triangle that repeats just one directed edge
    for (int k = 0; k < 3; k++) {
        P q = { Vec3(0., 0., 0.), Vec3(1., 0., 0.), Vec3(0., 1., 0.), Vec3(-1., 0., 0.), Vec3(0., -1., 0.) };
        I u = { 0, 1, 2, 0, 2, 3, 0, 3, 4 };
        I e = { 1, 2, 4 };        // 1 -> 2 is used
        std::rotate(e.begin(), e.begin() + k, e.end());
        u.insert(u.end(), e.begin(), e.end());
        int r = outcome([&] { Mesh m(q, u); if (tris(m).size() != 3) _exit(3); });
        REQUIRE(r == 0);
    }
    return 0;
}
'''),
 dict(id="build-bowtie-on-rim", property="C02",
  needs="a vertex on the boundary where two fans of triangles meet in that point only",
  what_it_breaks="the non-manifold vertex is accepted when it lies on the boundary",
  edits=[(M, "        if (count != vertexDegree[v->index()]) {", "        if (!v->isBoundary() && count != vertexDegree[v->index()]) {")],
  demo=HEAD + r'''
int main() {
    P p = { Vec3(0., 0., 0.), Vec3(1., 0., 0.), Vec3(1., 1., 0.), Vec3(-1., 0., 0.), Vec3(-1., -1., 0.) };
    I t = { 0, 1, 2, 0, 3, 4 };
    REQUIRE(outcome([&] { Mesh m(p, t); }) == 7);
    return 0;
}
'''),
 dict(id="rebuild-keeps-halfedges", property="C03",
  needs="building new contents into a mesh object that already holds a mesh",
  what_it_breaks="the old half-edges stay in the list of the rebuilt mesh",
  edits=[(M, "    // Clear existing elements\n    vertices_.clear();\n    halfedges_.clear();\n    faces_.clear();\n\n    std::unordered_map",
             "    // Clear existing elements\n    vertices_.clear();\n    faces_.clear();\n\n    std::unordered_map")],
  demo=HEAD + r'''
int main() {
    P p; I t;
    octa(p, t);
    int r = outcome([&] {
        Mesh m(p, t);
        m.construct(p, t);
        if (m.numHalfedges() != 24 || m.numEdges() != 12 || !m.verify()) _exit(3);
    });
    REQUIRE(r == 0);
    return 0;
}
'''),
 dict(id="fill-skips-triangles", property="C10",
  needs="a hole with exactly three edges, filled by filling all holes",
  what_it_breaks="holes of three edges are passed over and stay holes",
  edits=[(M, "        if (f->isHole()) {\n            holeFaces.push_back(i);", "        if (f->isHole() && f->numCorners() > 3) {\n            holeFaces.push_back(i);")],
  demo=HEAD + r"""
int main() {
    P p; I t;
    ball(8, 5, p, t);
    drop(t, { 0, 20, 21, 45 });
    Mesh m(p, t);
    m.fillHoles();
    for (int i = 0; i < (int)m.numFaces(); i++) REQUIRE(!m.face(i)->isHole());
    for (int i = 0; i < (int)m.numHalfedges(); i++) REQUIRE(!m.halfedge(i)->isBoundary());
    REQUIRE(m.numFaces() == 80 && m.verify());
    return 0;
}
"""),
 dict(id="fill-bend-first-edge", property="C11",
  needs="a four-edged hole where the sharper bend of a corner triangle is across its second edge",
  what_it_breaks="the bend across the second edge of a corner triangle is ignored, so the split that bends more is chosen",
  more=["restore/completion.cpp", "ops/features.cpp", "ops/operators.cpp", "ops/metrics.cpp", "core/bvh.cpp"],
  edits=[(C, "            Wangle(i, i + 2) = std::max(a01, a12);", "            Wangle(i, i + 2) = a01;")],
  demo=HEAD + r'''
#include "restore/restore.h"
// worst bend of the two ways to split a hole of four edges (the closing edge excepted)
static double bend(const Vec3 &a, const Vec3 &b, const Vec3 &c, const Vec3 &d) { return M_PI - dihedral(a, b, c, d); }
int main() {
    int seen[2] = { 0, 0 };
    for (int k = 0; k < 400; k++) {
        P p; I t;
        grid(3, 3, p, t);
        for (auto &q : p) q = Vec3(q.x(), q.y(), 2.0 * rnd());
        drop(t, { 8, 9 });
        Mesh m(p, t);
        Face *f = nullptr;
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole() && m.face(i)->numCorners() == 4) f = m.face(i);
        REQUIRE(f);
        std::vector<Vertex *> v; P o;
        for (auto it = f->he_begin(); it != f->he_end(); ++it) {
            v.push_back(it->src());
            o.push_back(it->rev()->next()->dst()->pos());
        }
        auto q = [&](int i) { return v[i]->pos(); };
        // diagonal 0-2: triangles 0 1 2 and 0 2 3; diagonal 1-3: triangles 1 2 3 and 0 1 3
        double w02 = std::max({ bend(q(2), q(0), q(1), o[0]), bend(q(0), q(1), q(2), o[1]), bend(q(3), q(0), q(2), q(1)), bend(q(0), q(2), q(3), o[2]) });
        double w13 = std::max({ bend(q(3), q(1), q(2), o[1]), bend(q(1), q(2), q(3), o[2]), bend(q(3), q(0), q(1), o[0]), bend(q(0), q(1), q(3), q(2)) });
        if (std::abs(w02 - w13) < 1.0e-6) continue;
        Vertex *a = v[w02 < w13 ? 0 : 1], *b = v[w02 < w13 ? 2 : 3];
        holeFillMinDihedral(m, f, 1.0e-9);
        bool joined = false;
        for (auto it = a->v_begin(); it != a->v_end(); ++it) joined |= it.ptr() == b;
        REQUIRE(joined);
        seen[w02 < w13]++;
    }
    REQUIRE(seen[0] > 20 && seen[1] > 20);
    return 0;
}
'''),
 dict(id="front-moves-rim", property="C12",
  needs="advancing-front filling of a hole on a surface with other vertices round it",
  what_it_breaks="the rim of the hole is only locked where it has more than two edges, so other original vertices are moved by the fairing",
  more=["restore/completion.cpp", "ops/features.cpp", "ops/operators.cpp", "ops/metrics.cpp", "core/bvh.cpp"],
  edits=[(C, "        boundary.push_back(it.ptr());\n        it->lock();", "        boundary.push_back(it.ptr());\n        if (it->degree() > 4) {\n            it->lock();\n        }")],
  demo=HEAD + r'''
#include "restore/restore.h"
int main() {
    for (int k = 4; k < 12; k++) {
        int r = outcome([&] {
            P p; I t;
            ball(k + 3, 4, p, t);
            I u(t.begin() + 3 * (k + 3), t.end());    // without the cap
            Mesh m(p, u);
            P before = m.getVertices();
            Face *f = nullptr;
            for (int i = 0; i < (int)m.numFaces(); i++) if (m.face(i)->isHole()) f = m.face(i);
            holeFillAdvancingFront(m, f);
            P after = m.getVertices();
            for (auto &q : before) if (std::find(after.begin(), after.end(), q) == after.end()) _exit(3);
            for (int i = 0; i < (int)m.numFaces(); i++) if (m.face(i)->isHole()) _exit(4);
        });
        REQUIRE(r == 0);
    }
    return 0;
}
'''),
 dict(id="taubin-half-iterations", property="C13",
  needs="Taubin smoothing with more than one iteration",
  what_it_breaks="n iterations make n + 1 half steps instead of 2 n",
  more=["filters/smooth.cpp"],
  edits=[(B + "filters/smooth.cpp", "    for (int it = 0; it < iterations * 2; it++) {", "    for (int it = 0; it < iterations + 1; it++) {")],
  demo=HEAD + r'''
#include "filters/filters.h"
int main() {
    P p; I t;
    ball(7, 4, p, t);
    Mesh a(p, t), b(p, t);
    smoothTaubin(a, 0.5, 0.53, 3);
    for (int k = 0; k < 3; k++) smoothTaubin(b, 0.5, 0.53, 1);
    for (int i = 0; i < (int)a.numVertices(); i++) REQUIRE(length(a.vertex(i)->pos() - b.vertex(i)->pos()) < 1.0e-9);
    return 0;
}
'''),
 dict(id="remesh-crease-end", property="C14",
  needs="a vertex with a single sharp edge which comes first when going round the vertex",
  what_it_breaks="the first edge round each vertex is not looked at, so the end of a crease is not kept",
  more=["filters/smooth.cpp", "remesh/remesh.cpp"],
  edits=[(B + "remesh/remesh.cpp", "        for (int j = 0; j < nn; j++) {\n            const int k = (j + 1) % nn;", "        for (int j = 1; j < nn; j++) {\n            const int k = (j + 1) % nn;")],
  demo=HEAD + r'''
#include "filters/filters.h"
#include "remesh/remesh.h"
// tent: two triangles over each edge of a hexagonal grid, raised along one interior edge
int main() {
    int kept = 0;
    P p; I t;
    grid(6, 6, p, t);
    for (int e = 0; e < (int)t.size(); e++) {
        P q = p;
        uint32_t a = t[e], b = t[e / 3 * 3 + (e + 1) % 3];
        q[a] = q[a] + Vec3(0., 0., 0.9);
        q[b] = q[b] + Vec3(0., 0., 0.9);
        Mesh m(q, t);
        const double limit = 1.8;
        P sharp;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            Vertex *v = m.vertex(i);
            if (v->isBoundary()) continue;
            for (auto it = v->he_begin(); it != v->he_end(); ++it) {
                double d = dihedral(it->next()->dst()->pos(), it->src()->pos(), it->dst()->pos(), it->rev()->next()->dst()->pos());
                if (d < limit - 0.05) { sharp.push_back(v->pos()); break; }
            }
        }
        kept += (int)sharp.size();
        remeshTriangular(m, 0.0, 100.0, limit, 1);
        P after = m.getVertices();
        for (auto &s : sharp) REQUIRE(std::find(after.begin(), after.end(), s) != after.end());
    }
    REQUIRE(kept > 0);
    return 0;
}
'''),
 dict(id="laplacian-shared-weight", property="C15",
  needs="Laplacian smoothing with several threads",
  what_it_breaks="the sum of weights is shared by the threads, so results depend on how vertices are dealt out",
  more=["filters/smooth.cpp"],
  edits=[(B + "filters/smooth.cpp", """        // Compute centroids and tangent planes
        omp_parallel_for(int i = 0; i < nv; i++) {
            Vertex *v = mesh.vertex(i);
            std::vector<Vec3> pts;
            Vec3 cent(0.0);
            double sumWgt = 0.0;
""", """        // Compute centroids and tangent planes
        double sumWgt = 0.0;
        omp_parallel_for(int i = 0; i < nv; i++) {
            Vertex *v = mesh.vertex(i);
            std::vector<Vec3> pts;
            Vec3 cent(0.0);
            sumWgt = 0.0;
""")],
  demo=HEAD + r'''
#include <omp.h>
#include "filters/filters.h"
int main() {
    P p; I t;
    ball(60, 40, p, t);
    omp_set_num_threads(1);
    Mesh a(p, t);
    smoothLaplacian(a, 0.5, true, 5);
    omp_set_num_threads(8);
    for (int k = 0; k < 20; k++) {
        Mesh b(p, t);
        smoothLaplacian(b, 0.5, true, 5);
        for (int i = 0; i < (int)a.numVertices(); i++) REQUIRE(a.vertex(i)->pos() == b.vertex(i)->pos());
    }
    return 0;
}
'''),
 dict(id="smooth-locks-rim", property="C16",
  needs="Laplacian smoothing of a mesh with a boundary, then asking for locks",
  what_it_breaks="smoothing leaves the vertices on the boundary locked",
  more=["filters/smooth.cpp"],
  edits=[(B + "filters/smooth.cpp", """            if (v->isBoundary() || v->isLocked()) {
                continue;
            }

            const Vec3 pt = v->pos();
            const Vec3 e = centroids[i] - pt;
            const Vec3 newPos = (1.0 - epsilon) * pt + epsilon * (pt + e);
""", """            if (v->isBoundary()) {
                v->lock();
            }
            if (v->isLocked()) {
                continue;
            }

            const Vec3 pt = v->pos();
            const Vec3 e = centroids[i] - pt;
            const Vec3 newPos = (1.0 - epsilon) * pt + epsilon * (pt + e);
""")],
  demo=HEAD + r'''
#include "filters/filters.h"
int main() {
    P p; I t;
    grid(4, 4, p, t);
    Mesh m(p, t);
    m.vertex(12)->lock();
    smoothLaplacian(m, 0.5, false, 1);
    for (int i = 0; i < (int)m.numVertices(); i++) REQUIRE(m.vertex(i)->isLocked() == (i == 12));
    return 0;
}
'''),
 dict(id="remesh-rim-ideal", property="C18",
  needs="remeshing a surface with a boundary where a flip would join two interior vertices next to the boundary",
  what_it_breaks="the ideal number of edges of an opposite corner is taken from another vertex, so flips are made that do not improve",
  more=["filters/smooth.cpp", "remesh/remesh.cpp"],
  edits=[(B + "remesh/remesh.cpp", "            const int t2 = v2->isBoundary() ? 4 : 6;", "            const int t2 = v1->isBoundary() ? 4 : 6;")],
  demo=HEAD + r'''
#include "filters/filters.h"
#include "remesh/remesh.h"
static int deviation(Mesh &m) {
    int s = 0;
    for (int i = 0; i < (int)m.numVertices(); i++) s += std::abs(m.vertex(i)->degree() - (m.vertex(i)->isBoundary() ? 4 : 6));
    return s;
}
int main() {
    for (int k = 0; k < 200; k++) {
        P p; I t;
        grid(5, 5, p, t);
        Mesh m(p, t);
        for (int j = 0; j < 60; j++) m.flipHE(m.halfedge((int)(rnd() * m.numHalfedges())));
        auto was = tris(m);
        int before = deviation(m);
        remeshTriangular(m, 0.0, 1000.0, 0.0, 1);    // flips only
        int after = deviation(m);
        REQUIRE(after < before || tris(m) == was);
    }
    return 0;
}
'''),
 dict(id="simplify-overshoot", property="C19",
  needs="simplification to a target that is reached exactly",
  what_it_breaks="the loop only stops once more faces than asked for are removed, ending below the target",
  more=["remesh/simplify.cpp", "filters/smooth.cpp"],
  edits=[(B + "remesh/simplify.cpp", "            if (numRemoved >= numTargetRemove) {\n                break;\n            }\n        }\n\n        // Flip", "            if (numRemoved > numTargetRemove) {\n                break;\n            }\n        }\n\n        // Flip"),
         (B + "remesh/simplify.cpp", "while (!que.empty() && numRemoved < numTargetRemove) {", "while (!que.empty()) {")],
  demo=HEAD + r'''
#include "remesh/remesh.h"
int main() {
    for (int target = 60; target < 100; target += 3) {
        P p; I t;
        ball(10, 7, p, t);
        Mesh m(p, t);
        simplifyQEM(m, target, 10, false);
        REQUIRE((int)m.numFaces() >= target - 1);
    }
    return 0;
}
'''),
 dict(id="bvh-inner-prune", property="C20",
  needs="a query outside the triangles whose nearest triangle lies in a subtree with a box just nearer than the best found",
  what_it_breaks="subtrees are skipped unless their box is clearly nearer than the best distance so far",
  more=["core/bvh.cpp"],
  edits=[(B + "core/bvh.cpp", "if (isInside || dc <= dist) {", "if (isInside || 1.25 * dc <= dist) {")],
  demo=HEAD + r'''
#include "core/bvh.h"
#include "core/triangle.h"
int main() {
    for (int k = 0; k < 20; k++) {
        P p; I t;
        for (int i = 0; i < 60; i++) {
            Vec3 c(10 * rnd(), 10 * rnd(), 10 * rnd());
            for (int j = 0; j < 3; j++) { t.push_back((uint32_t)p.size()); p.push_back(c + Vec3(rnd(), rnd(), rnd())); }
        }
        BVH bvh(p, t);
        for (int q = 0; q < 200; q++) {
            Vec3 x(14 * rnd() - 2, 14 * rnd() - 2, 14 * rnd() - 2);
            double best = 1.0e9;
            for (size_t f = 0; f < t.size(); f += 3) best = std::min(best, Triangle(p[t[f]], p[t[f + 1]], p[t[f + 2]]).distance(x));
            REQUIRE(std::abs(bvh.distance(x) - best) < 1.0e-9);
        }
    }
    return 0;
}
'''),
 dict(id="hausdorff-part", property="C21",
  needs="two meshes one of which lies entirely on the other",
  what_it_breaks="if all vertices of the first mesh lie on the second, the other direction is not looked at and zero is returned",
  more=["core/bvh.cpp", "ops/metrics.cpp"],
  edits=[(B + "ops/metrics.cpp", "    return std::max(dist01max, dist10max);", "    return dist01max > 0.0 ? std::max(dist01max, dist10max) : dist01max;")],
  demo=HEAD + r'''
#include "ops/ops.h"
int main() {
    P p, q; I t, u;
    grid(2, 2, p, t);
    grid(4, 4, q, u);
    Mesh a(p, t), b(q, u);
    REQUIRE(std::abs(getHausdorffDistance(a, b) - std::sqrt(8.0)) < 1.0e-9);
    REQUIRE(std::abs(getHausdorffDistance(b, a) - std::sqrt(8.0)) < 1.0e-9);
    return 0;
}
'''),
 dict(id="laplace-heat-width", property="C22",
  needs="the third kind of Laplacian on a mesh whose mean edge length is not one",
  what_it_breaks="the exponent uses the squared width",
  more=["ops/operators.cpp"],
  edits=[(B + "ops/operators.cpp", "std::exp(-norm * norm / (4 * h))", "std::exp(-norm * norm / (4 * h * h))")],
  demo=HEAD + r'''
#include "ops/ops.h"
int main() {
    P p; I t;
    ball(6, 3, p, t);
    for (auto &q : p) q = 3.0 * q;
    Mesh m(p, t);
    const double h = m.getMeanEdgeLength();
    EigenSparseMatrix L = getMeshLaplacian(m, MeshLaplace::Belkin08);
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *e = m.halfedge(i);
        double w = -std::exp(-e->length() * e->length() / (4 * h)) / (4 * M_PI * h);
        REQUIRE(std::abs(L.coeff(e->src()->index(), e->dst()->index()) - w) < 1.0e-9);
    }
    return 0;
}
'''),
 dict(id="save-obj-last-vertex", property="C23",
  needs="saving as OBJ a mesh and looking at triangles that start at the last vertex",
  what_it_breaks="triangles starting at the last vertex are not written",
  edits=[(M, "        if (i0 < nv && i1 < nv && i2 < nv) {", "        if (i0 < nv - 1 && i1 < nv && i2 < nv) {")],
  demo=HEAD + r'''
#include <fstream>
int main() {
    P p; I t;
    octa(p, t);
    for (int k = 0; k < 3; k++) {
        for (int i = 0; i < 24; i += 3) std::rotate(t.begin() + i, t.begin() + i + 1, t.begin() + i + 3);
        Mesh m(p, t);
        m.save("out.obj");
        std::ifstream in("out.obj");
        std::string l;
        int f = 0, v = 0;
        while (std::getline(in, l)) { f += l.rfind("f ", 0) == 0; v += l.rfind("v ", 0) == 0; }
        REQUIRE(v == 6 && f == 8);
    }
    return 0;
}
'''),
 dict(id="clone-stale-list", property="C24",
  needs="cloning after an edit that keeps the number of triangles, such as a flip",
  what_it_breaks="the clone is built from the triangle list the mesh was built from",
  edits=[(M, "    return Mesh(this->getVertices(), this->getVertexIndices());", "    if (indices_.size() == 3 * numFaces()) {\n        return Mesh(this->getVertices(), indices_);\n    }\n    return Mesh(this->getVertices(), this->getVertexIndices());")],
  demo=HEAD + r'''
int main() {
    P p; I t;
    ball(7, 4, p, t);
    Mesh m(p, t);
    int done = 0;
    for (int i = 0; i < (int)m.numHalfedges() && !done; i++) done = m.flipHE(m.halfedge(i));
    REQUIRE(done);
    Mesh c = m.clone();
    auto list = [](Mesh &x) {
        std::set<std::set<std::array<double, 3>>> s;
        auto t = x.getVertexIndices(); auto v = x.getVertices();
        for (size_t i = 0; i < t.size(); i += 3) {
            std::set<std::array<double, 3>> f;
            for (int k = 0; k < 3; k++) f.insert({ v[t[i + k]].x(), v[t[i + k]].y(), v[t[i + k]].z() });
            s.insert(f);
        }
        return s;
    };
    REQUIRE(list(m) == list(c));
    return 0;
}
'''),
 dict(id="box-open-side", property="C25",
  needs="asking whether a box contains a point on its upper side",
  what_it_breaks="points on the upper sides of a box do not count as inside",
  edits=[(B + "core/bounds.h", "if (p[d] < posMin_[d] || posMax_[d] < p[d]) return false;", "if (p[d] < posMin_[d] || posMax_[d] <= p[d]) return false;")],
  demo=HEAD + r'''
#include "core/bounds.h"
int main() {
    Bounds3 b(Vec3(0., 0., 0.), Vec3(1., 2., 3.));
    REQUIRE(b.inside(Vec3(1., 1., 1.)) && b.inside(Vec3(0., 2., 0.)) && b.inside(Vec3(1., 2., 3.)));
    REQUIRE(!b.inside(Vec3(1.5, 1., 1.)));
    return 0;
}
'''),
 dict(id="gauss-obtuse-angle", property="C26",
  needs="Gaussian curvature at a vertex with an obtuse corner",
  what_it_breaks="obtuse corner angles are taken as negative ones",
  edits=[(B + "core/vertex.cpp", "sumAngles += std::atan2(length(cross(e1, e2)), dot(e1, e2));", "sumAngles += std::atan(length(cross(e1, e2)) / dot(e1, e2));")],
  demo=HEAD + r'''
int main() {
    P p; I t;
    ball(5, 2, p, t);
    for (auto &q : p) q = Vec3(q.x(), q.y(), 0.2 * q.z());
    Mesh m(p, t);
    double s = 0.0;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vertex *v = m.vertex(i);
        double a = 0.0;
        for (auto it = v->f_begin(); it != v->f_end(); ++it) a += v->volonoiArea(it.ptr());
        s += v->K() * a;
    }
    REQUIRE(std::abs(s - 4 * M_PI) < 1.0e-6);
    return 0;
}
'''),
 dict(id="heat-last-time", property="C27",
  needs="heat kernel signatures at the last time",
  what_it_breaks="the times stop short of the longest one",
  more=["ops/features.cpp", "ops/operators.cpp"],
  edits=[(B + "ops/features.cpp", "const double inc = (log_t_max - log_t_min) / (nTimes - 1);", "const double inc = (log_t_max - log_t_min) / nTimes;")],
  demo=HEAD + r'''
#include <Eigen/Dense>
#include "ops/ops.h"
int main() {
    P p; I t;
    ball(8, 5, p, t);
    Mesh m(p, t);
    EigenSparseMatrix L = getMeshLaplacian(m, MeshLaplace::Adjacent);
    const int K = 12, n = 5;
    EigenMatrix h = getHeatKernelSignatures(L, K, n);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Eigen::MatrixXd(L), Eigen::ComputeEigenvectors);
    const double t1 = 4 * std::log(10.0) / es.eigenvalues()(1);
    // nearly all of the heat of the modes with eigenvalue lambda_2 is gone to 1e-4 at the last time
    double sum = 0.0, want = 0.0;
    for (int i = 0; i < h.rows(); i++) sum += h(i, n - 1);
    for (int k = 0; k < K; k++) want += std::exp(-t1 * es.eigenvalues()(k));
    std::printf("%f %f\n", sum, want);
    REQUIRE(std::abs(sum - want) < 1.0e-5);
    return 0;
}
'''),
 dict(id="face-number-limit", property="C28",
  needs="asking for the face whose number is exactly the number of faces",
  what_it_breaks="the number just past the last face is not reported but read out of place",
  edits=[(B + "core/mesh.h", "Assertion(index >= 0 && index < (int)faces_.size(), ", "Assertion(index >= 0 && index <= (int)faces_.size(), ")],
  demo=HEAD + r'''
int main() {
    P p; I t;
    octa(p, t);
    REQUIRE(outcome([&] { Mesh m(p, t); volatile Face *f = m.face(8); (void)f; }) == 7);
    REQUIRE(outcome([&] { Mesh m(p, t); volatile Face *f = m.face(7); (void)f; }) == 0);
    return 0;
}
'''),
 dict(id="const-faces-stop-at-hole", property="C04",
  needs="going round a vertex on the boundary with the const face iterator, starting away from the hole",
  what_it_breaks="the walk over the faces ends at the hole, so faces beyond it are missed",
  edits=[(B + "core/vertex.cpp", "Vertex::ConstFaceIterator &Vertex::ConstFaceIterator::operator++() {\n    iter_ = iter_->rev()->next();\n    if (iter_ == halfedge_) {",
          "Vertex::ConstFaceIterator &Vertex::ConstFaceIterator::operator++() {\n    iter_ = iter_->rev()->next();\n    if (iter_ == halfedge_ || iter_->face()->isHole()) {")],
  demo=HEAD + r"""
int main() {
    P p; I t;
    grid(3, 3, p, t);
    const int nh = (int)Mesh(p, t).numHalfedges();
    for (int h = 0; h < nh; h++) {
        Mesh m(p, t);
        m.splitHE(m.halfedge(h));
        for (int i = 0; i < (int)m.numVertices(); i++) {
            const Vertex *v = m.vertex(i);
            int n = 0;
            for (auto it = v->f_begin(); it != v->f_end(); ++it) n++;
            REQUIRE(n == v->degree());
        }
    }
    return 0;
}
"""),
 dict(id="remesh-eats-rim", property="C17",
  needs="remeshing a surface with a boundary that has short edges next to the boundary",
  what_it_breaks="edges beside a triangle on the boundary are collapsed, which damages the boundary",
  more=["filters/smooth.cpp", "remesh/remesh.cpp"],
  edits=[(M, "    if (he->face()->isBoundary() || he->rev()->face()->isBoundary()) {\n        return false;\n    }\n\n    // Skip interior",
             "    if (he->face()->isBoundary() && he->rev()->face()->isBoundary()) {\n        return false;\n    }\n\n    // Skip interior")],
  demo=HEAD + r"""
#include "filters/filters.h"
#include "remesh/remesh.h"
int main() {
    for (int k = 0; k < 20; k++) {
        int r = outcome([&] {
            P p; I t;
            grid(6, 6, p, t);
            for (auto &q : p) if (q.x() > 0.5 && q.x() < 5.5 && q.y() > 0.5 && q.y() < 5.5) q = q + Vec3(0.6 * rnd() - 0.3, 0.6 * rnd() - 0.3, 0.);
            Mesh m(p, t);
            remeshTriangular(m, 0.9, 1.4, 0.0, 3);
            int rim = 0;
            for (int i = 0; i < (int)m.numHalfedges(); i++) rim += m.halfedge(i)->isBoundary();
            if (rim != 48 || !m.verify()) _exit(3);
        });
        REQUIRE(r == 0);
    }
    return 0;
}
"""),
]
