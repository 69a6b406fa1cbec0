// Remeshing and simplification, with the edits they make.
//   remesh OUT SEED COUNT remesh|simplify
#include "common.h"
#include "remesh/remesh.h"

static Log out;
static bool tracing = false;
static Ids ids;
static double meanLen = 1.0;
static Rng *entropy = nullptr;

static int scaled(double x) {
    if (!(x < 1000)) return 1000000000;
    return (int)std::floor(x * 1e6 + 0.5);
}
static int realFaces(const Mesh &m) {
    int n = 0;
    for (int i = 0; i < (int)m.numFaces(); i++) n += !m.face(i)->isHole();
    return n;
}

struct Edge {
    int a, b, c, d, nt, len, far;
};
static Edge seen(const Mesh &m, Halfedge *h) {
    Edge e;
    e.a = ids.of(h->src());
    e.b = ids.of(h->dst());
    e.c = ids.of(h->next()->dst());
    e.d = ids.of(h->rev()->next()->dst());
    e.nt = realFaces(m);
    auto dist = [](const Vec3 &p, const Vec3 &q) {
        double s = 0;
        for (int k = 0; k < 3; k++) s += (p[k] - q[k]) * (p[k] - q[k]);
        return std::sqrt(s);
    };
    e.len = scaled(dist(h->src()->pos(), h->dst()->pos()) / meanLen);
    double far = 0;
    Vertex *b = h->dst();
    size_t n = 0;
    for (Halfedge *o = h->rev();;) {
        far = std::max(far, dist(h->src()->pos(), o->dst()->pos()));
        o = o->rev()->next();
        if (o == h->rev() || ++n > m.numHalfedges()) break;
    }
    (void)b;
    e.far = scaled(far / meanLen);
    return e;
}
static void edit(const char *op, const Mesh &m, const Edge &e) {
    ids.refresh(m);
    J j;
    j.str("op", op).i("a", e.a).i("b", e.b).i("c", e.c).i("d", e.d).i("nt", e.nt).i("len", e.len).i("far", e.far).i("n", ids.fresh);
    out.line(j.done());
}

#define WRAP(name, mangled, op)                                      \
    extern "C" bool __real_##mangled(Mesh *m, Halfedge *h);          \
    extern "C" bool __wrap_##mangled(Mesh *m, Halfedge *h) {         \
        if (!tracing) return __real_##mangled(m, h);                 \
        Edge e = seen(*m, h);                                        \
        bool r = __real_##mangled(m, h);                             \
        if (r) edit(op, *m, e);                                      \
        return r;                                                    \
    }
WRAP(split, _ZN8tinymesh4Mesh7splitHEEPNS_8HalfedgeE, "split")
WRAP(flip, _ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE, "flip")
WRAP(collapse, _ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE, "collapse")

// the processing order comes from here
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) {
    return entropy ? (unsigned)entropy->g() : 4u;
}

static std::map<std::string, int> tok;
static std::string places(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 p = m.vertex(i)->pos();
        double a[3] = { p[0], p[1], p[2] };
        r.push_back(tok.emplace(std::string((const char *)a, sizeof a), (int)tok.size()).first->second);
    }
    return jarr(r);
}
static std::string structure(const Mesh &m) {
    return dumpRaw(m, Raw::of(m), ids, 1);
}

// cosines of the angles between neighbouring triangles (flat: -1)
static std::string angles(const Mesh &m) {
    std::vector<std::vector<int>> r;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        if (h->face()->isHole() || h->rev()->face()->isHole()) continue;
        const int a = ids.of(h->src()), b = ids.of(h->dst());
        if (a > b) continue;
        Vec3 p = h->src()->pos(), q = h->dst()->pos(), c = h->next()->dst()->pos(), d = h->rev()->next()->dst()->pos();
        // components of c - p and d - p orthogonal to the edge
        auto sub = [](const Vec3 &x, const Vec3 &y) { return std::array<double, 3>{ x[0] - y[0], x[1] - y[1], x[2] - y[2] }; };
        auto dotp = [](const std::array<double, 3> &x, const std::array<double, 3> &y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
        auto e = sub(q, p), u = sub(c, p), v = sub(d, p);
        double ee = dotp(e, e), tu = dotp(u, e) / ee, tv = dotp(v, e) / ee;
        for (int k = 0; k < 3; k++) {
            u[k] -= tu * e[k];
            v[k] -= tv * e[k];
        }
        double l = std::sqrt(dotp(u, u) * dotp(v, v));
        if (!(l > 1e-9)) continue;
        r.push_back({ a, b, scaled(dotp(u, v) / l) });
    }
    return jarr2(r);
}

static double mean(const Mesh &m) {
    double s = 0;
    int n = 0;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        Vec3 p = h->src()->pos(), q = h->dst()->pos();
        s += std::sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]));
        n++;
    }
    return s / n;
}

static void lockSome(Mesh &m, Rng &g) {
    if (g.chance(1, 2)) return;
    const int rate = g.range(2, 12);
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (g.chance(1, rate)) m.vertex(i)->lock();
}
static std::string locks(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (m.vertex(i)->isLocked()) r.push_back(ids.of(m.vertex(i)));
    return jarr(r);
}

static void history(Mesh &m, Rng &g) {
    if (g.chance(2, 3)) return;
    for (int k = g.range(1, 8); k > 0; k--) {
        Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
        switch (g.upto(3)) {
        case 0: m.splitHE(h); break;
        case 1: m.flipHE(h); break;
        default:
            if (m.numFaces() > 10) m.collapseHE(h);
            break;
        }
    }
}

static void remesh(uint64_t seed) {
    Rng g(seed);
    calling("make");
    Shape s = g.chance(1, 2) ? denseShape(g) : randomShape(g);
    Mesh m(s.verts(), s.idx());
    history(m, g);
    if (!Raw::of(m).sane) return;
    lockSome(m, g);
    ids.reset(m);
    meanLen = mean(m);
    static const double shorts[] = { 0.8, 0.5, 0.9, 0.3, 1.2, 0.8 }, longs[] = { 1.333, 1.1, 1.5, 2.0, 1.333, 1.0 };
    static const double angs[] = { 0.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0 };
    const double sl = shorts[g.upto(6)], ll = longs[g.upto(6)], ka = angs[g.upto(8)];
    const int it = m.numVertices() > 40 ? g.range(0, 2) : g.range(0, 3);
    out.line(J().str("op", "start").str("call", "remesh").raw("m", structure(m)).raw("pos", places(m)).raw("lock", locks(m)).raw("cs", angles(m))
                 .i("cosk", ka == 0.0 ? 2000000 : scaled(std::cos(ka))).i("short", scaled(sl)).i("long", scaled(ll)).i("target", 0).done());
    entropy = &g;
    calling("call");
    tracing = true;
    tinymesh::remeshTriangular(m, sl, ll, ka, it, g.chance(1, 3));
    tracing = false;
    entropy = nullptr;
    ids.refresh(m);
    calling("look");
    out.line(J().str("op", "final").raw("m", structure(m)).raw("pos", places(m)).i("same", 1).done());
    calling("");
}

static void simplify(uint64_t seed) {
    Rng g(seed);
    calling("make");
    Shape s = g.chance(1, 2) ? denseShape(g) : randomShape(g);
    const uint64_t hs = g.g();
    std::string res[3];
    const int nf0 = (int)Mesh(s.verts(), s.idx()).numFaces();
    const int target = g.chance(1, 8) ? nf0 + g.range(0, 3) : g.range(1, nf0);
    const int trials = g.chance(1, 2) ? 10 : g.range(0, 3);
    const bool second = g.chance(1, 2);
    const int lower = g.range(1, std::max(target - 1, 1));
    // runs 1 and 2 only differ by their verbose flag, run 0 has a lower target
    for (int k = 0; k < 3; k++) {
        Rng h(hs);
        Mesh m(s.verts(), s.idx());
        history(m, h);
        if (!Raw::of(m).sane) return;
        lockSome(m, h);
        ids.reset(m);
        meanLen = mean(m);
        std::string head = J().str("op", "start").str("call", "simplify").raw("m", structure(m)).raw("pos", places(m)).raw("lock", locks(m)).raw("cs", "[]")
                               .i("cosk", 0).i("short", 0).i("long", 0).i("target", target).done();
        if (k == 2) out.line(head);
        calling("call");
        tracing = k == 2;
        tinymesh::simplifyQEM(m, k == 0 ? lower : target, trials, second == (k == 2));
        tracing = false;
        ids.refresh(m);
        calling("look");
        res[k] = structure(m) + places(m);
        if (k == 2)
            out.line(J().str("op", "final").raw("m", structure(m)).raw("pos", places(m)).i("same", res[1] == res[2]).i("toward", res[0] == res[2]).done());
    }
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const bool sim = !strcmp(argv[4], "simplify");
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { sim ? simplify(hs) : remesh(hs); }, 30);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
