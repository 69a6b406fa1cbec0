// Context-coherent filling of holes.
//   coherent OUT SEED COUNT
#include "common.h"
#include "restore/restore.h"

static Log out;

// remove the triangles around a vertex (and around its neighbours)
static void removeAround(Shape &s, Rng &g, int rings) {
    Shape r = s;
    std::set<int> core = { r.t[g.upto((int)r.t.size())][0] };
    for (int k = 1; k < rings; k++) {
        std::set<int> more = core;
        for (auto &t : r.t)
            if (core.count(t[0]) || core.count(t[1]) || core.count(t[2])) more.insert(t.begin(), t.end());
        core = more;
    }
    r.t.clear();
    for (auto &t : s.t)
        if (!core.count(t[0]) && !core.count(t[1]) && !core.count(t[2])) r.t.push_back(t);
    r.compact();
    if (manifold(r)) s = r;
}

static std::string dump(Mesh &m, Ids &ids) {
    return dumpRaw(m, Raw::of(m), ids, 1);
}

// The first filling has degenerate triangles, of which no curvature exists.
static bool degenerate(const Shape &s) {
    Mesh m(s.verts(0.1), s.idx());
    for (size_t i = 0; i < m.numVertices(); i++) m.vertex(i)->lock();
    for (size_t i = 0; i < m.numFaces(); i++)
        if (m.face(i)->isHole()) tinymesh::holeFillAdvancingFront(m, m.face(i));
    double lo = 1e30, sum = 0.0;
    for (size_t i = 0; i < m.numFaces(); i++) {
        std::vector<Vec3> p;
        for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) p.push_back(it->pos());
        if (p.size() != 3) return true;
        const Vec3 a = p[1] - p[0], b = p[2] - p[0];
        const double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
        const double area = std::sqrt(x * x + y * y + z * z);
        if (!(area >= 0.0)) return true;
        lo = std::min(lo, area);
        sum += area;
    }
    return lo < 1.0e-4 * sum / (double)m.numFaces();
}

static void one(uint64_t seed) {
    Rng g(seed);
    for (int tries = 0; tries < 20; tries++) {
        Shape s;
        switch (g.upto(4)) {
        case 0: s = sphere(g.range(19, 22), g.range(17, 19), 1000); break;
        case 1: s = torus(g.range(22, 26), g.range(14, 15), 1000, 450); break;
        case 2: s = sphere(g.range(19, 22), g.range(17, 19), 1000); for (auto &p : s.p) p[2] = p[2] * 3 / 2; break;
        default: s = tube(g.range(16, 20), g.range(18, 22), 600, 180); break;
        }
        jitter(s, g, g.range(1, 25));
        const int n = g.range(0, 2);
        for (int k = 0; k < n; k++) removeAround(s, g, g.range(1, 3));
        if (g.chance(1, 3)) punch(s, g, g.range(1, 3));
        if (g.chance(1, 2)) shuffleLabels(s, g);
        if (g.chance(1, 4)) flipOrientation(s);
        s.compact();
        if (s.p.size() < 305 || !s.distinctPos() || !manifold(s)) continue;
        const int iters = g.chance(1, 6) ? 0 : g.chance(1, 5) ? g.range(4, 8) : g.range(1, 3);
        calling("look");
        if (degenerate(s)) continue;
        calling("make");
        Mesh m(s.verts(0.1), s.idx());
        Ids ids;
        ids.reset(m);
        const std::string a = dump(m, ids);
        std::vector<Vec3> p;
        for (size_t i = 0; i < m.numVertices(); i++) p.push_back(m.vertex(i)->pos());
        calling("coherent");
        tinymesh::holeFillContextCoherent(m, iters);
        calling("");
        ids.refresh(m);
        std::vector<int> kept(p.size(), 0);
        bool finite = true;
        for (size_t i = 0; i < m.numVertices(); i++) {
            const Vec3 q = m.vertex(i)->pos();
            for (int d = 0; d < 3; d++) finite = finite && std::isfinite(q[d]);
            const int k = ids.of(m.vertex(i));
            if (k < (int)p.size()) kept[k] = q[0] == p[k][0] && q[1] == p[k][1] && q[2] == p[k][2];
        }
        out.line(J().str("op", "coherent").i("iters", iters).raw("a", a).raw("m", dump(m, ids)).raw("kept", jarr(kept)).i("finite", finite).done());
        return;
    }
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const char *res = runChild([&] { one(seed * 1000003ull + (uint64_t)i); }, 120);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
