// Distance queries on triangle sets and between meshes.
//   dist OUT SEED COUNT near|mesh
#include "common.h"
#include "core/bvh.h"
#include "core/triangle.h"
#include "ops/ops.h"

static Log out;

// from the integer model to space and back
struct Frame {
    double s = 1;
    int o[3] = { 0, 0, 0 };
    int perm[3] = { 0, 1, 2 };
    explicit Frame(Rng &g) {
        if (g.chance(1, 2)) return;
        s = std::ldexp(g.chance(1, 2) ? 1.0 : 0.1 + g.unit(), g.range(-24, 24));
        if (g.chance(1, 2))
            for (int k = 0; k < 3; k++) o[k] = g.range(-1000, 1000);
    }
    Vec3 out(const std::array<int, 3> &p) const {
        return Vec3{ (p[0] + o[0]) * s, (p[1] + o[1]) * s, (p[2] + o[2]) * s };
    }
    std::array<double, 3> back(const Vec3 &v) const {
        return { v[0] / s - o[0], v[1] / s - o[1], v[2] / s - o[2] };
    }
};
static int micro(double x) {
    if (!(std::fabs(x) < 2000)) return 2000000000;
    return (int)std::floor(x * 1e6 + 0.5);
}
static int micro2(double d, const Frame &f) {
    return d >= 0 ? micro((d / f.s) * (d / f.s)) : 2000000000;
}
using P = std::array<int, 3>;
static std::string tris(const std::vector<P> &p, const std::vector<std::array<int, 3>> &t) {
    std::vector<std::string> r;
    for (auto &f : t) r.push_back("[" + jarr(p[f[0]]) + "," + jarr(p[f[1]]) + "," + jarr(p[f[2]]) + "]");
    return jstrs(r);
}

static void near(uint64_t seed) {
    Rng g(seed);
    calling("make");
    static const int sizes[] = { 1, 1, 1, 2, 3, 5, 8, 9, 12, 17, 25, 40 };
    const int n = sizes[g.upto(12)], R = g.range(1, 8);
    const int kind = g.upto(6);
    std::vector<P> p;
    std::vector<std::array<int, 3>> t;
    for (int i = 0; i < n; i++) {
        P a, b, c;
        for (int k = 0; k < 3; k++) {
            a[k] = g.range(-R, R);
            b[k] = g.range(-R, R);
            c[k] = g.range(-R, R);
        }
        if (kind == 1) a[2] = b[2] = c[2] = 0;                         // all in a plane
        if (kind == 2) b[1] = c[1] = a[1] = a[2] = b[2] = c[2] = 0;    // all on a line
        if (kind == 3)                                                 // small triangles, scattered
            for (int k = 0; k < 3; k++) {
                b[k] = std::max(-8, std::min(8, a[k] + g.range(-1, 1)));
                c[k] = std::max(-8, std::min(8, a[k] + g.range(-1, 1)));
            }
        if (g.chance(1, 12)) b = a;
        if (g.chance(1, 12)) c = a;
        if (g.chance(1, 12)) c = b;
        if (kind == 4 && i > 0 && g.chance(1, 2)) {                    // repeated triangles
            a = p[0], b = p[1], c = p[2];
        }
        p.push_back(a);
        p.push_back(b);
        p.push_back(c);
        t.push_back({ 3 * i, 3 * i + 1, 3 * i + 2 });
    }
    Frame f(g);
    std::vector<Vec3> vs;
    std::vector<uint32_t> ix;
    for (auto &x : p) vs.push_back(f.out(x));
    for (auto &x : t)
        for (int k = 0; k < 3; k++) ix.push_back(x[k]);
    calling("build");
    tinymesh::BVH bvh(vs, ix);
    for (int k = 0; k < 4; k++) {
        P q;
        for (int c = 0; c < 3; c++) q[c] = g.range(-R - 4, R + 4);
        if (g.chance(1, 6)) q = p[g.upto((int)p.size())];
        calling("query");
        const Vec3 at = f.out(q);
        Vec3 c;
        double d;
        if (n == 1 && g.chance(2, 3)) {
            tinymesh::Triangle tri(vs[0], vs[1], vs[2]);
            c = tri.closestPoint(at);
            d = tri.distance(at);
        } else {
            c = bvh.closestPoint(at);
            d = bvh.distance(at);
        }
        auto b = f.back(c);
        std::vector<int> m = { micro(b[0]), micro(b[1]), micro(b[2]) };
        out.line(J().str("op", "near").raw("ts", tris(p, t)).raw("q", jarr(q)).raw("p", jarr(m)).i("d2", micro2(d, f)).done());
    }
    calling("");
}

static std::vector<int> squares(const EigenVector &v, const Frame &f) {
    std::vector<int> r;
    for (int i = 0; i < (int)v.size(); i++) r.push_back(micro2(v(i), f));
    return r;
}
struct Made {
    Mesh m;
    std::vector<P> p;
    std::vector<std::array<int, 3>> t;
    Made(const Shape &s, const Frame &f, Rng &g) {
        std::vector<Vec3> vs;
        for (auto &x : s.p) vs.push_back(f.out(x));
        m.construct(vs, s.idx());
        if (g.chance(1, 3))  // edits that keep the positions
            for (int k = g.range(1, 6); k > 0; k--) m.flipHE(m.halfedge(g.upto((int)m.numHalfedges())));
        for (int i = 0; i < (int)m.numVertices(); i++) {
            auto b = f.back(m.vertex(i)->pos());
            p.push_back({ (int)std::lround(b[0]), (int)std::lround(b[1]), (int)std::lround(b[2]) });
        }
        std::set<Face *> done;
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            Halfedge *h = m.halfedge(i);
            if (h->face()->isHole() || !done.insert(h->face()).second) continue;
            t.push_back({ (int)h->src()->index(), (int)h->dst()->index(), (int)h->next()->dst()->index() });
        }
    }
};
static void meshes(uint64_t seed) {
    Rng g(seed);
    calling("make");
    Frame f(g);
    Shape sa = latticeShape(g), sb = latticeShape(g);
    if (g.chance(1, 4)) {  // nearly the same surface
        sb = sa;
        if (g.chance(1, 2)) {
            auto &q = sb.p[g.upto((int)sb.p.size())];
            q[g.upto(3)] += 1;
            for (int c = 0; c < 3; c++) q[c] = std::min(q[c], 8);
            if (!sb.distinctPos()) sb = sa;
        }
    }
    Made a(sa, f, g), b(sb, f, g);
    calling("distance");
    EigenVector ab = tinymesh::getPerVertexShortestDistances(a.m, b.m);
    EigenVector ba = tinymesh::getPerVertexShortestDistances(b.m, a.m);
    const double h = tinymesh::getHausdorffDistance(a.m, b.m), hr = tinymesh::getHausdorffDistance(b.m, a.m);
    out.line(J().str("op", "mesh").raw("ta", tris(a.p, a.t)).raw("va", jarr2(a.p)).raw("tb", tris(b.p, b.t)).raw("vb", jarr2(b.p))
                 .raw("ab", jarr(squares(ab, f))).raw("ba", jarr(squares(ba, f))).i("h", micro2(h, f)).i("hr", micro2(hr, f)).done());
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const bool pair = !strcmp(argv[4], "mesh");
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { pair ? meshes(hs) : near(hs); }, 20);
        const std::string at = currentCall();
        out.line(J().str("op", "end").str("res", res).str("call", at)
                     .str("blame", at == "make" || at == "" ? "" : pair ? "C21" : "C20").i("hist", i).done());
    }
    return 0;
}
