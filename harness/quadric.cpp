// The passes of simplification: which edges are merged, in which order, and where.
//   quadric OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"
#include "remesh/remesh.h"

static Log out;
static bool tracing = false;
static double unit = 1.0;

struct Pass {
    bool open = false, turning = false, gap = false;
    Ids ids;
    std::map<int, Vertex *> vert;
    std::vector<Vec3> pos;
    std::vector<std::array<int, 3>> tri;
    std::vector<std::array<int, 2>> merges;
    std::vector<std::array<int, 4>> turns;
    std::vector<std::array<int, 3>> placed;
    int moved = 0;
};
static Pass now;
static int passes = 0;

static int fix(double x) {
    x = x / unit * 1e4;
    if (!(std::abs(x) < 1e8)) return 100000000;
    return (int)std::floor(x + 0.5);
}
static bool same(const Vec3 &p, const Vec3 &q) {
    return p[0] == q[0] && p[1] == q[1] && p[2] == q[2];
}

// positions and triangles as they are between two passes
static void begin(const Mesh &m) {
    now = Pass();
    now.open = true;
    now.ids.reset(m);
    for (int i = 0; i < (int)m.numVertices(); i++) {
        now.vert[now.ids.of(m.vertex(i))] = m.vertex(i);
        now.pos.push_back(m.vertex(i)->pos());
    }
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (f->isHole()) continue;
        std::vector<int> c;
        for (auto it = f->v_begin(); it != f->v_end() && c.size() < 4; ++it) c.push_back(now.ids.of(it.ptr()));
        if (c.size() == 3) now.tri.push_back({ c[0], c[1], c[2] });
    }
}

// the merges of the pass are over: look where things are
static void merged(const Mesh &m) {
    if (!now.open || now.turning) return;
    now.turning = true;
    std::map<int, bool> part;
    now.placed.clear();
    for (auto &g : now.merges) part[g[0]] = part[g[1]] = true;
    std::map<int, Vec3> at;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        const int id = now.ids.of(m.vertex(i));
        if (id < 0) {
            now.gap = true;
            continue;
        }
        at.emplace(id, m.vertex(i)->pos());
        if (!part.count(id) && !same(m.vertex(i)->pos(), now.pos[id])) now.moved++;
    }
    for (auto &g : now.merges) {
        if (!at.count(g[0])) {
            // stays in a merge, goes in a later one
            now.placed.push_back({ 100000000, 100000000, 100000000 });
            continue;
        }
        Vec3 p = at.at(g[0]);
        now.placed.push_back({ fix(p[0]), fix(p[1]), fix(p[2]) });
    }
}

static void finish(const Mesh &m) {
    if (!now.open) return;
    merged(m);
    now.open = false;
    if (now.gap || (now.merges.empty() && now.turns.empty() && now.moved == 0)) return;
    std::vector<std::vector<int>> F, P, N, g, fl;
    for (auto &t : now.tri) {
        F.push_back({ t[0] + 1, t[1] + 1, t[2] + 1 });
        const Vec3 &a = now.pos[t[0]], &b = now.pos[t[1]], &c = now.pos[t[2]];
        double u[3], v[3], n[3], l = 0;
        for (int k = 0; k < 3; k++) {
            u[k] = (b[k] - a[k]) / unit;
            v[k] = (c[k] - a[k]) / unit;
        }
        for (int k = 0; k < 3; k++) {
            n[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
            l += n[k] * n[k];
        }
        l = std::sqrt(l);
        std::vector<int> r;
        for (int k = 0; k < 3; k++) r.push_back(l > 1e-6 ? (int)std::floor(n[k] / l * 1e4 + 0.5) : 0);
        N.push_back(r);
    }
    for (auto &p : now.pos) P.push_back({ fix(p[0]), fix(p[1]), fix(p[2]) });
    for (size_t k = 0; k < now.merges.size(); k++)
        g.push_back({ now.merges[k][0] + 1, now.merges[k][1] + 1, now.placed[k][0], now.placed[k][1], now.placed[k][2] });
    for (auto &t : now.turns) fl.push_back({ t[0] + 1, t[1] + 1, t[2] + 1, t[3] + 1 });
    out.line(J().str("op", "pass").raw("F", jarr2(F)).raw("P", jarr2(P)).raw("N", jarr2(N)).raw("g", jarr2(g)).raw("fl", jarr2(fl)).i("moved", now.moved).done());
    passes++;
}

extern "C" bool __real__ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE(Mesh *m, Halfedge *h);
extern "C" bool __wrap__ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE(Mesh *m, Halfedge *h) {
    if (!tracing) return __real__ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE(m, h);
    Vertex *a = h->src(), *b = h->dst();
    const int ia = now.ids.of(a), ib = now.ids.of(b);
    const bool r = __real__ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE(m, h);
    if (now.turning || ia < 0 || ib < 0) now.gap = true;
    if (r && !now.gap) {
        bool hasA = false, hasB = false;
        for (int i = 0; i < (int)m->numVertices(); i++) {
            hasA |= m->vertex(i) == a;
            hasB |= m->vertex(i) == b;
        }
        if (hasA == hasB) now.gap = true;
        else now.merges.push_back({ hasA ? ia : ib, hasA ? ib : ia });
    }
    return r;
}

extern "C" bool __real__ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE(Mesh *m, Halfedge *h);
extern "C" bool __wrap__ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE(Mesh *m, Halfedge *h) {
    if (!tracing) return __real__ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE(m, h);
    merged(*m);
    std::array<int, 4> t{ now.ids.of(h->src()), now.ids.of(h->dst()), now.ids.of(h->next()->dst()), now.ids.of(h->rev()->next()->dst()) };
    const bool r = __real__ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE(m, h);
    if (r) now.turns.push_back(t);
    return r;
}

extern "C" void __real__ZN8tinymesh15smoothLaplacianERNS_4MeshEdbi(Mesh &m, double e, bool c, int n);
extern "C" void __wrap__ZN8tinymesh15smoothLaplacianERNS_4MeshEdbi(Mesh &m, double e, bool c, int n) {
    if (tracing) finish(m);
    __real__ZN8tinymesh15smoothLaplacianERNS_4MeshEdbi(m, e, c, n);
    if (tracing) begin(m);
}
extern "C" void __real__ZN8tinymesh12smoothTaubinERNS_4MeshEddi(Mesh &m, double a, double b, int n);
extern "C" void __wrap__ZN8tinymesh12smoothTaubinERNS_4MeshEddi(Mesh &m, double a, double b, int n) {
    if (tracing) finish(m);
    __real__ZN8tinymesh12smoothTaubinERNS_4MeshEddi(m, a, b, n);
    if (tracing) begin(m);
}

static void simplify(uint64_t seed) {
    Rng g(seed);
    calling("make");
    Shape s = g.chance(3, 4) ? denseShape(g) : randomShape(g);
    Mesh m(s.verts(), s.idx());
    double l = 0;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Vec3 p = m.halfedge(i)->src()->pos(), q = m.halfedge(i)->dst()->pos();
        l += std::sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]));
    }
    unit = l / (double)m.numHalfedges();
    const int nf = (int)m.numFaces();
    const int target = g.chance(1, 4) ? 1 : g.range(std::max(1, nf / 3), nf);
    const int trials = g.range(1, 3);
    calling("call");
    now = Pass();
    tracing = true;
    tinymesh::simplifyQEM(m, target, trials, false);
    finish(m);
    tracing = false;
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { simplify(hs); }, 30);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
