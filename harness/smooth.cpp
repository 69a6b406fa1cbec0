// Smoothing calls on real meshes.
//   smooth OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"

static Log out;

static void randomEdits(Mesh &m, Rng &g, int n) {
    for (int k = 0; k < n; k++) {
        Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
        switch (g.upto(3)) {
        case 0: m.flipHE(h); break;
        case 1: m.collapseHE(h); break;
        default: if (m.numVertices() < 30) m.splitHE(h); break;
        }
    }
}

static std::string tris(const Mesh &m) {
    std::vector<std::vector<int>> r;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (f->isHole()) continue;
        std::vector<int> t;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) t.push_back(it->index() + 1);
        r.push_back(t);
    }
    return jarr2(r);
}

static std::vector<Vec3> positions(const Mesh &m) {
    std::vector<Vec3> r;
    for (int i = 0; i < (int)m.numVertices(); i++) r.push_back(m.vertex(i)->pos());
    return r;
}

static std::string fixed(const std::vector<Vec3> &p, double unit) {
    std::vector<std::array<long long, 3>> r;
    for (auto &q : p) {
        std::array<long long, 3> a;
        for (int k = 0; k < 3; k++) {
            double x = q[k] * unit;
            a[k] = std::isfinite(x) && std::fabs(x) < 9.0e6 ? std::llround(x) : 20000000;
        }
        r.push_back(a);
    }
    return jarr2(r);
}

static std::string kept(const std::vector<Vec3> &a, const std::vector<Vec3> &b) {
    std::vector<int> r;
    for (size_t i = 0; i < a.size(); i++) {
        bool s = true;
        for (int k = 0; k < 3; k++) {
            double x = a[i][k], y = b[i][k];
            if (memcmp(&x, &y, sizeof x)) s = false;
        }
        r.push_back(s);
    }
    return jarr(r);
}

static std::string locks(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (m.vertex(i)->isLocked()) r.push_back(i + 1);
    return jarr(r);
}

static void lockSome(Mesh &m, Rng &g) {
    if (g.chance(1, 3)) return;
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (g.chance(1, 5)) m.vertex(i)->lock();
}

static void uniform(Rng &g) {
    Shape s = randomShape(g);
    Mesh m(s.verts(), s.idx());
    if (g.chance(1, 2)) randomEdits(m, g, g.range(1, 12));
    lockSome(m, g);
    static const int strengths[] = { 100, 50, 25, 75, 10, 53, 0, 90 };
    for (int round = 0; round < 2; round++) {
        std::vector<Vec3> p = positions(m);
        J j;
        int a = strengths[g.upto(8)], b = strengths[g.upto(8)];
        bool lap = g.chance(1, 2);
        calling("smooth");
        if (lap) tinymesh::smoothLaplacian(m, a / 100.0, false, 1);
        else tinymesh::smoothTaubin(m, a / 100.0, b / 100.0, 1);
        calling("");
        std::vector<Vec3> q = positions(m);
        j.str("op", lap ? "lap" : "taubin").i("num", a).i("den", 100).i("num2", b).i("den2", 100);
        j.raw("tri", tris(m)).raw("lock", locks(m)).raw("p", fixed(p, 1e4)).raw("q", fixed(q, 1e4)).raw("kept", kept(p, q));
        out.line(j.done());
    }
}

static void cotangent(Rng &g) {
    for (int tries = 0; tries < 50; tries++) {
        Shape s = randomShape(g);
        for (auto &q : s.p)
            for (int k = 0; k < 3; k++) q[k] = (q[k] + (q[k] > 0 ? 1 : 0)) / 2;
        if (!s.distinctPos()) continue;
        Mesh m(s.verts(), s.idx());
        for (int k = 0, n = g.chance(1, 2) ? g.range(1, 8) : 0; k < n; k++) {
            Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
            if (g.chance(1, 2)) m.flipHE(h);
            else m.collapseHE(h);
        }
        lockSome(m, g);
        std::vector<Vec3> p = positions(m);
        static const int strengths[] = { 100, 50, 25, 75, 10 };
        int a = strengths[g.upto(5)];
        calling("smooth");
        tinymesh::smoothLaplacian(m, a / 100.0, true, 1);
        calling("");
        std::vector<Vec3> q = positions(m);
        J j;
        j.str("op", "cot").i("num", a).i("den", 100);
        j.raw("tri", tris(m)).raw("lock", locks(m)).raw("p", fixed(p, 1)).raw("q", fixed(q, 1e3)).raw("kept", kept(p, q));
        out.line(j.done());
        return;
    }
}

static void many(Rng &g) {
    Shape s = randomShape(g);
    Mesh m(s.verts(), s.idx()), w(s.verts(), s.idx());
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (g.chance(1, 8)) {
            m.vertex(i)->lock();
            w.vertex(i)->lock();
        }
    int n = g.range(2, 4), kind = g.upto(3);
    double a = g.range(1, 9) / 10.0, b = g.range(1, 9) / 10.0;
    calling("smooth");
    auto run = [&](Mesh &x, int it) {
        if (kind == 0) tinymesh::smoothLaplacian(x, a, false, it);
        if (kind == 1) tinymesh::smoothLaplacian(x, a, true, it);
        if (kind == 2) tinymesh::smoothTaubin(x, a, b, it);
    };
    run(m, n);
    for (int k = 0; k < n; k++) run(w, 1);
    calling("");
    out.line(J().str("op", "many").i("n", n).raw("p", fixed(positions(w), 1e4)).raw("q", fixed(positions(m), 1e4)).done());
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild(
            [&] {
                Rng g(hs);
                int k = g.upto(7);
                if (k < 3) uniform(g);
                else if (k < 6) cotangent(g);
                else many(g);
            },
            20);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
