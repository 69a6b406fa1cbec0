HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <map>
#include <array>
#include <vector>
#include <string>
#include <iostream>
#include <functional>
#include "core/vec.h"
#include "core/mesh.h"
#include "core/vertex.h"
#include "core/halfedge.h"
#include "core/face.h"
using namespace tinymesh;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)
static Halfedge *edge(Mesh &m, int a, int b) {
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        if (h->src()->index() == a && h->dst()->index() == b) return h;
    }
    return nullptr;
}
static std::set<std::array<int, 3>> tris(Mesh &m) {
    std::set<std::array<int, 3>> s;
    auto x = m.getVertexIndices();
    for (size_t i = 0; i + 2 < x.size(); i += 3) {
        std::array<int, 3> t = { (int)x[i], (int)x[i + 1], (int)x[i + 2] };
        while (t[0] > t[1] || t[0] > t[2]) t = { t[1], t[2], t[0] };
        s.insert(t);
    }
    return s;
}
// disk: centre 0, rings of n vertices
static void disk(int n, int k, std::vector<Vec3> &p, std::vector<uint32_t> &t, double lift = 0.0) {
    p.push_back(Vec3(0.0, 0.0, lift));
    for (int q = 1; q <= k; q++)
        for (int i = 0; i < n; i++) p.push_back(Vec3(q * cos(2 * M_PI * i / n), q * sin(2 * M_PI * i / n), 0.1 * q * lift));
    for (int i = 0; i < n; i++) t.insert(t.end(), { 0u, (uint32_t)(1 + i), (uint32_t)(1 + (i + 1) % n) });
    for (int q = 1; q < k; q++)
        for (int i = 0; i < n; i++) {
            uint32_t a = 1 + (q - 1) * n + i, b = 1 + (q - 1) * n + (i + 1) % n, c = a + n, d = b + n;
            t.insert(t.end(), { a, c, b });
            t.insert(t.end(), { b, c, d });
        }
}
static void octa(std::vector<Vec3> &p, std::vector<uint32_t> &t) {
    p = { Vec3(0., 0., 1.), Vec3(1., 0., 0.), Vec3(0., 1., 0.), Vec3(-1., 0., 0.), Vec3(0., -1., 0.), Vec3(0., 0., -1.) };
    t = { 0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1, 5, 2, 1, 5, 3, 2, 5, 4, 3, 5, 1, 4 };
}
'''
M = "src/tinymesh/core/mesh.cpp"
BUGS = [
 dict(id="split-stale-start", property="C05",
  needs="splitting an edge whose higher-degree end starts its walk at exactly the half-edge being split",
  what_it_breaks="after the split that end's first half-edge leaves the new vertex instead, so walking round it goes round the wrong vertex",
  edits=[(M, "    v0->halfedge_ = he2;\n    v1->halfedge_ = he0;\n    v_new->halfedge_ = he;", "    v1->halfedge_ = he0;\n    v_new->halfedge_ = he;")],
  demo=HEAD + r'''
int main() {
    std::vector<Vec3> p; std::vector<uint32_t> t;
    disk(6, 3, p, t, 1.0);
    const int nh = (int)Mesh(p, t).numHalfedges();
    for (int h = 0; h < nh; h++) {
        Mesh m(p, t);
        m.splitHE(m.halfedge(h));
        REQUIRE(m.verify());
        for (int i = 0; i < (int)m.numVertices(); i++)
            REQUIRE(m.vertex(i)->he_begin()->src() == m.vertex(i));
    }
    return 0;
}
'''),
 dict(id="flip-degree-end", property="C06",
  needs="flipping an edge whose far end has exactly four incident edges and whose near end has more",
  what_it_breaks="the flip is carried out although it must be refused, leaving a vertex with three incident edges",
  edits=[(M, "    if (u0->degree() <= 4 || u2->degree() <= 4) {\n        return false;\n    }\n\n    // Cannot flip", "    if (u0->degree() <= 4 || u2->degree() < 4) {\n        return false;\n    }\n\n    // Cannot flip")],
  demo=HEAD + r'''
int main() {
    std::vector<Vec3> p; std::vector<uint32_t> t;
    octa(p, t);
    Mesh m(p, t);
    REQUIRE(m.splitHE(edge(m, 1, 2)));   // 0 and 5 get five incident edges
    int refused = 0;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        if (h->src()->degree() > 4 && h->dst()->degree() == 4) {
            REQUIRE(!m.flipHE(h));
            refused++;
        }
    }
    REQUIRE(refused > 0);
    return 0;
}
'''),
 dict(id="collapse-tie", property="C07",
  needs="collapsing an edge whose two ends have equally many incident edges",
  what_it_breaks="the end the half-edge starts from is removed instead of the end it points to",
  edits=[(M, "    if (d0 > d1) {\n        std::swap(he, rev);\n    }\n\n    // Skip halfedge at the boundary", "    if (d0 >= d1) {\n        std::swap(he, rev);\n    }\n\n    // Skip halfedge at the boundary")],
  demo=HEAD + r'''
int main() {
    std::vector<Vec3> p; std::vector<uint32_t> t;
    disk(6, 4, p, t);
    Mesh m(p, t);
    int done = 0;
    for (int i = 0; i < (int)m.numHalfedges() && !done; i++) {
        Halfedge *h = m.halfedge(i);
        if (h->src()->degree() != h->dst()->degree()) continue;
        Vec3 a = h->src()->pos(), b = h->dst()->pos();
        if (!m.collapseHE(h)) continue;
        done = 1;
        bool ha = false, hb = false;
        for (auto &q : m.getVertices()) { ha |= q == a; hb |= q == b; }
        REQUIRE(ha && !hb);
    }
    REQUIRE(done);
    return 0;
}
'''),
 dict(id="flip-refused-restart", property="C08",
  needs="a flip refused because the opposite corners are already joined, on a vertex whose walk starts elsewhere",
  what_it_breaks="the refused flip has already changed where walks round the edge's ends start",
  edits=[(M, """    // Cannot flip halfedge if ends vertices of flipped
    // halfedge are already the ends of other edges.
""", """    // Update halfedges of start/end vertices
    u2->halfedge_ = he->next_;
    u0->halfedge_ = rev->next_;

    // Cannot flip halfedge if ends vertices of flipped
    // halfedge are already the ends of other edges.
"""), (M, """    // Update halfedges of start/end vertices
    v0->halfedge_ = he0;
    v2->halfedge_ = he2;

    // Uate_""", """    // Uate_""")],
  demo=HEAD + r'''
int main() {
    std::vector<Vec3> p; std::vector<uint32_t> t;
    const int n = 3, k = 7;
    for (int q = 0; q < k; q++)
        for (int i = 0; i < n; i++) p.push_back(Vec3(cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 1.0 * q));
    for (int q = 0; q + 1 < k; q++)
        for (int i = 0; i < n; i++) {
            uint32_t a = q * n + i, b = q * n + (i + 1) % n, c = a + n, d = b + n;
            t.insert(t.end(), { a, b, d });
            t.insert(t.end(), { a, d, c });
        }
    int cases = 0;
    unsigned long long x = 12345;
    for (int rep = 0; rep < 40; rep++) {
        Mesh m(p, t);
        for (int s = 0; s < 60; s++) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            m.flipHE(m.halfedge((int)((x >> 33) % m.numHalfedges())));
        }
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            std::vector<Halfedge *> before, after;
            for (int v = 0; v < (int)m.numVertices(); v++) before.push_back(m.vertex(v)->he_begin().ptr());
            Halfedge *h = m.halfedge(i);
            if (h->isBoundary() || h->rev()->isBoundary()) continue;
            Vertex *a = h->next()->dst(), *b = h->rev()->next()->dst();
            bool joined = false;
            for (auto it = a->v_begin(); it != a->v_end(); ++it) joined |= it.ptr() == b;
            if (!joined || h->src()->degree() <= 4 || h->dst()->degree() <= 4) continue;
            REQUIRE(!m.flipHE(h));
            cases++;
            for (int v = 0; v < (int)m.numVertices(); v++) after.push_back(m.vertex(v)->he_begin().ptr());
            REQUIRE(before == after);
        }
    }
    REQUIRE(cases > 0);
    return 0;
}
'''),
 dict(id="collapse-shared-nbrs", property="C09",
  needs="collapsing an edge whose ends have a third common neighbour (a triangle of edges that is not a face)",
  what_it_breaks="the collapse glues two sheets along an edge, so the surface is no longer a manifold",
  edits=[(M, "    if (numUnion != 2) {\n        return false;\n    }", "    if (numUnion < 2) {\n        return false;\n    }")],
  demo=HEAD + r'''
int main() {
    // a closed tube with a waist of three edges: collapsing a waist edge pinches it
    std::vector<Vec3> p; std::vector<uint32_t> t;
    const int n = 3, k = 5;
    for (int q = 0; q < k; q++)
        for (int i = 0; i < n; i++) p.push_back(Vec3(cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 1.0 * q));
    for (int q = 0; q + 1 < k; q++)
        for (int i = 0; i < n; i++) {
            uint32_t a = q * n + i, b = q * n + (i + 1) % n, c = a + n, d = b + n;
            t.insert(t.end(), { a, b, d });
            t.insert(t.end(), { a, d, c });
        }
    Mesh ref(p, t);
    for (int h = 0; h < (int)ref.numHalfedges(); h++) {
        Mesh m(p, t);
        if (!m.collapseHE(m.halfedge(h))) continue;
        std::set<std::pair<int, int>> e;
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            Halfedge *x = m.halfedge(i);
            REQUIRE(e.insert({ x->src()->index(), x->dst()->index() }).second);
        }
    }
    return 0;
}
'''),
]
