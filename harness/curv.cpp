// Curvature analyses of surfaces and of their images.
//   curv OUT SEED COUNT
#include "common.h"
#include "ops/ops.h"
#include <Eigen/Eigenvalues>

static Log out;
static int fix(double x, double unit) {
    if (!(std::fabs(x * unit) < 1e9)) return 1000000000;
    return (int)std::floor(x * unit + 0.5);
}
static int dir(double x) {  // part of a unit vector
    return std::fabs(x) < 2 ? fix(x, 1e4) : 20000;
}
using D3 = std::array<double, 3>;
struct Rigid {
    double r[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
    D3 o = { 0, 0, 0 };
    double s = 1;
    void random(Rng &g) {
        double q[4], n = 0;
        for (double &x : q) {
            x = g.unit() - 0.5;
            n += x * x;
        }
        n = std::sqrt(n);
        for (double &x : q) x /= n;
        const double w = q[0], x = q[1], y = q[2], z = q[3];
        double m[3][3] = { { 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y) },
                           { 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x) },
                           { 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y) } };
        memcpy(r, m, sizeof r);
        for (double &c : o) c = (g.unit() - 0.5) * 20;
        s = std::exp((g.unit() - 0.5) * 4);
    }
    D3 turn(const D3 &v) const {
        D3 y;
        for (int i = 0; i < 3; i++) y[i] = r[i][0] * v[0] + r[i][1] * v[1] + r[i][2] * v[2];
        return y;
    }
    D3 back(const D3 &v) const {
        D3 y;
        for (int i = 0; i < 3; i++) y[i] = r[0][i] * v[0] + r[1][i] * v[1] + r[2][i] * v[2];
        return y;
    }
    Vec3 place(const D3 &v) const {
        D3 y = turn(v);
        return Vec3{ s * y[0] + o[0], s * y[1] + o[1], s * y[2] + o[2] };
    }
};
struct Smooth {  // a shape with real positions
    std::vector<D3> p;
    std::vector<std::array<int, 3>> t;
};
static Smooth of(const Shape &s) {
    Smooth r;
    for (auto &q : s.p) r.p.push_back({ (double)q[0], (double)q[1], (double)q[2] });
    r.t = s.t;
    return r;
}
static double meanEdge(const Smooth &s) {
    double l = 0;
    int n = 0;
    for (auto &t : s.t)
        for (int k = 0; k < 3; k++) {
            auto &a = s.p[t[k]], &b = s.p[t[(k + 1) % 3]];
            l += std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
            n++;
        }
    return l / n;
}
// the image, its triangles and corners listed in another order; returns the index of each vertex there
static std::vector<int> make(Mesh &m, const Smooth &s, const Rigid &f, Rng *g) {
    std::vector<Vec3> vs;
    for (auto &q : s.p) vs.push_back(f.place(q));
    std::vector<std::array<int, 3>> t = s.t;
    if (g) {
        for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[g->upto((int)i)]);
        for (auto &x : t) std::rotate(x.begin(), x.begin() + g->upto(3), x.end());
    }
    std::vector<uint32_t> ix;
    for (auto &x : t)
        for (int k = 0; k < 3; k++) ix.push_back(x[k]);
    m.construct(vs, ix);
    std::map<std::array<double, 3>, int> at;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        const Vec3 q = m.vertex(i)->pos();
        at[{ q[0], q[1], q[2] }] = i;
    }
    std::vector<int> label;
    for (auto &q : vs) {
        auto it = at.find({ q[0], q[1], q[2] });
        if (it == at.end()) throw std::runtime_error("driver: a vertex of the surface is missing");
        label.push_back(it->second);
    }
    return label;
}
struct Curv {
    std::vector<int> k1, k2, e1, e2;
    std::vector<std::array<int, 3>> t1, t2;
};
static Curv curvatures(const Mesh &m, const Rigid &f, const std::vector<int> &label, double unit, bool smooth, bool derived) {
    EigenVector a, b, da, db;
    EigenMatrix ta, tb;
    if (derived) {
        auto r = tinymesh::getPrincipalCurvaturesWithDerivatives(m, smooth);
        a = std::get<0>(r), b = std::get<1>(r), da = std::get<2>(r), db = std::get<3>(r), ta = std::get<4>(r), tb = std::get<5>(r);
    } else {
        auto r = tinymesh::getPrincipalCurvatures(m, smooth);
        a = std::get<0>(r), b = std::get<1>(r), ta = std::get<2>(r), tb = std::get<3>(r);
    }
    Curv c;
    for (int l : label) {
        c.k1.push_back(fix(a(l) * f.s * unit, 1e5));
        c.k2.push_back(fix(b(l) * f.s * unit, 1e5));
        if (derived) {
            c.e1.push_back(fix(std::fabs(da(l)) * f.s * f.s * unit * unit, 1e5));
            c.e2.push_back(fix(std::fabs(db(l)) * f.s * f.s * unit * unit, 1e5));
        }
        D3 x = f.back({ ta(l, 0), ta(l, 1), ta(l, 2) }), y = f.back({ tb(l, 0), tb(l, 1), tb(l, 2) });
        c.t1.push_back({ dir(x[0]), dir(x[1]), dir(x[2]) });
        c.t2.push_back({ dir(y[0]), dir(y[1]), dir(y[2]) });
    }
    return c;
}
static Smooth bumpy(Rng &g) {
    Shape s;
    switch (g.upto(3)) {
    case 0: s = sphere(g.range(5, 9), g.range(3, 5), 100); break;
    case 1: s = torus(g.range(7, 10), g.range(5, 7), 100, 45); break;
    default: s = icosa(62, 100); break;
    }
    jitter(s, g, g.range(3, 9));
    Smooth r = of(s);
    const double z = g.chance(1, 2) ? 1 : 0.5 + g.unit() * 2;
    for (auto &q : r.p) {
        for (double &x : q) x = x / 50 + (g.unit() - 0.5) * 0.02;
        q[2] *= z;
    }
    return r;
}
static void principal(Rng &g) {
    Smooth s = bumpy(g);
    const double u = meanEdge(s);
    Rigid id, f;
    f.random(g);
    const bool smooth = g.chance(1, 3), derived = g.chance(1, 2);
    Mesh a, b;
    auto l0 = make(a, s, id, nullptr), l1 = make(b, s, f, &g);
    calling("curvature");
    Curv x = curvatures(a, id, l0, u, smooth, derived), y = curvatures(b, f, l1, u, smooth, derived);
    out.line(J().str("op", "prin").raw("k1", jarr(x.k1)).raw("k2", jarr(x.k2)).raw("t1", jarr2(x.t1)).raw("t2", jarr2(x.t2)).raw("e1", jarr(x.e1)).raw("e2", jarr(x.e2))
                 .raw("j1", jarr(y.k1)).raw("j2", jarr(y.k2)).raw("s1", jarr2(y.t1)).raw("s2", jarr2(y.t2)).raw("d1", jarr(y.e1)).raw("d2", jarr(y.e2)).done());
    calling("");
}
// ellipsoids and tori, looked at on their equators
static void revolution(Rng &g) {
    Smooth s;
    double k[2];
    bool along;
    std::vector<int> eq;
    if (g.chance(1, 2)) {
        const int n = g.range(12, 16), rings = 2 * g.range(5, 7) + 1;
        const double a = 1, c = g.chance(1, 2) ? 2.0 + g.unit() : 0.4 + 0.2 * g.unit();
        s = of(sphere(n, rings, 1000));
        s.p.clear();
        s.p.push_back({ 0, 0, c });
        for (int q = 1; q <= rings; q++)
            for (int i = 0; i < n; i++) {
                const double u = 2 * M_PI * (i + 0.5 * (q % 2)) / n, v = M_PI * q / (rings + 1);
                if (q == (rings + 1) / 2) eq.push_back((int)s.p.size());
                s.p.push_back({ a * sin(v) * cos(u), a * sin(v) * sin(u), c * cos(v) });
            }
        s.p.push_back({ 0, 0, -c });
        along = c < a;
        k[0] = std::max(1 / a, a / (c * c));
        k[1] = std::min(1 / a, a / (c * c));
    } else {
        const int n = g.range(20, 26), m = 2 * g.range(5, 7);
        const double R = 2, r = 0.7 + 0.2 * g.unit();
        s.t = torus(n, m, 1000, 300).t;
        const bool inner = g.chance(1, 2);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) {
                const double u = 2 * M_PI * i / n, v = 2 * M_PI * j / m;
                if (j == (inner ? m / 2 : 0)) eq.push_back((int)s.p.size());
                s.p.push_back({ (R + r * cos(v)) * cos(u), (R + r * cos(v)) * sin(u), r * sin(v) });
            }
        along = true;
        k[0] = 1 / r;
        k[1] = inner ? -1 / (R - r) : 1 / (R + r);
    }
    Rigid f;
    f.random(g);
    const double unit = meanEdge(s);
    if (g.chance(1, 3)) {  // seen from the other side
        for (auto &t : s.t) std::swap(t[1], t[2]);
        std::swap(k[0], k[1]);
        k[0] = -k[0], k[1] = -k[1];
        along = !along;
    }
    Mesh m;
    auto l = make(m, s, f, &g);
    calling("curvature");
    Curv x = curvatures(m, f, l, unit, g.chance(1, 3), g.chance(1, 4)), e;
    for (int v : eq) {
        e.k1.push_back(x.k1[v]);
        e.k2.push_back(x.k2[v]);
        e.t1.push_back(x.t1[v]);
        e.t2.push_back(x.t2[v]);
    }
    std::vector<int> want = { fix(k[0] * unit, 1e5), fix(k[1] * unit, 1e5) }, axis = { 0, 0, 10000 };
    out.line(J().str("op", "revol").raw("k1", jarr(e.k1)).raw("k2", jarr(e.k2)).raw("t1", jarr2(e.t1)).raw("t2", jarr2(e.t2))
                 .raw("axis", jarr(axis)).i("along", along).raw("want", jarr(want)).done());
    calling("");
}
static void signatures(Rng &g) {
    Smooth s = bumpy(g);
    Rigid id;
    const int n = (int)s.p.size();
    const int K = g.chance(1, 2) ? n - 1 : g.range(3, n - 1), times = g.range(2, 12);
    const auto kind = g.chance(1, 2) ? tinymesh::Adjacent : tinymesh::Belkin08;
    Mesh a, b;
    auto l0 = make(a, s, id, nullptr), l1 = make(b, s, id, &g);
    calling("signature");
    EigenMatrix x = tinymesh::getHeatKernelSignatures(tinymesh::getMeshLaplacian(a, kind), K, times);
    EigenMatrix y = tinymesh::getHeatKernelSignatures(tinymesh::getMeshLaplacian(b, kind), K, times);
    std::vector<std::string> h, k;
    for (int i = 0; i < n; i++) {
        std::vector<int> r, q;
        for (int j = 0; j < times; j++) {
            r.push_back(fix(x(l0[i], j), 1e7));
            q.push_back(fix(y(l1[i], j), 1e7));
        }
        h.push_back(jarr(r));
        k.push_back(jarr(q));
    }
    out.line(J().str("op", "hks").i("K", K).i("n", n).raw("h", jstrs(h)).raw("g", jstrs(k)).done());
    calling("");
}
// small graphs, with an eigenbasis of their Laplacian as a witness
static void heat(Rng &g) {
    Shape sh;
    switch (g.upto(4)) {
    case 0: sh = sphere(g.range(3, 5), g.range(1, 2), 100); break;
    case 1: sh = icosa(62, 100); break;
    case 2: sh = torus(3, g.range(3, 4), 100, 40); break;
    default: sh = latticeShape(g, g.chance(1, 2)); break;
    }
    Smooth s = of(sh);
    Rigid id;
    Mesh m;
    make(m, s, id, &g);
    const int n = (int)m.numVertices();
    if (n > 16) return;
    std::set<std::array<int, 2>> es;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        const int a = m.halfedge(i)->src()->index(), b = m.halfedge(i)->dst()->index();
        es.insert({ std::min(a, b), std::max(a, b) });
    }
    std::vector<std::array<int, 2>> ev(es.begin(), es.end());
    Eigen::MatrixXd L = Eigen::MatrixXd::Zero(n, n);
    for (auto &e : ev) {
        L(e[0], e[1]) = L(e[1], e[0]) = -1;
        L(e[0], e[0]) += 1;
        L(e[1], e[1]) += 1;
    }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> basis(L);
    const auto lam = basis.eigenvalues();
    const auto U = basis.eigenvectors();
    if (lam(1) < 0.3) return;
    const int K = g.chance(1, 2) ? n - 1 : g.range(2, n - 1), T = g.range(2, 6);
    std::vector<int> la, ti;
    std::vector<std::string> us, hs;
    for (int i = 0; i < n; i++) {
        la.push_back(fix(lam(i), 1e4));
        std::vector<int> u;
        for (int j = 0; j < n; j++) u.push_back(fix(U(j, i), 1e4));
        us.push_back(jarr(u));
    }
    const double a = std::log(4 * std::log(10.0) / lam(K - 1)), b = std::log(4 * std::log(10.0) / lam(1));
    for (int j = 0; j < T; j++) ti.push_back(fix(std::exp(a + (b - a) * j / (T - 1)), 1e4));
    calling("signature");
    EigenMatrix h = tinymesh::getHeatKernelSignatures(tinymesh::getMeshLaplacian(m, tinymesh::MeshLaplace::Adjacent), K, T);
    for (int i = 0; i < n; i++) {
        std::vector<int> r;
        for (int j = 0; j < T; j++) r.push_back(fix(h(i, j), 1e4));
        hs.push_back(jarr(r));
    }
    std::vector<std::string> el;
    for (auto &e : ev) el.push_back(jarr(std::vector<int>{ e[0], e[1] }));
    out.line(J().str("op", "heat").i("n", n).i("K", K).raw("edges", jstrs(el)).raw("lam", jarr(la)).raw("u", jstrs(us))
                 .raw("times", jarr(ti)).i("rows", (int)h.rows()).i("cols", (int)h.cols()).raw("h", jstrs(hs)).done());
    calling("");
}
// half way between equator and pole, curvature along the meridian changes
static void derivative(Rng &g) {
    const int n = g.range(14, 18), rings = 2 * g.range(6, 8) + 1;
    const double a = 1, c = g.chance(1, 2) ? 1.6 + g.unit() * 0.6 : 0.5 + 0.2 * g.unit();
    Smooth s = of(sphere(n, rings, 1000));
    s.p.clear();
    std::vector<int> at;
    std::vector<double> want;
    s.p.push_back({ 0, 0, c });
    for (int q = 1; q <= rings; q++)
        for (int i = 0; i < n; i++) {
            const double u = 2 * M_PI * (i + 0.5 * (q % 2)) / n, v = M_PI * q / (rings + 1);
            if (q == rings / 3 || q == rings - rings / 3 + 1) {
                at.push_back((int)s.p.size());
                // curvature a c / w^3, w the speed in v; per arc length, towards +z (v falling)
                const double w = std::sqrt(a * a * cos(v) * cos(v) + c * c * sin(v) * sin(v));
                want.push_back(3 * a * c / std::pow(w, 5) * (c * c - a * a) * sin(v) * cos(v));
            }
            s.p.push_back({ a * sin(v) * cos(u), a * sin(v) * sin(u), c * cos(v) });
        }
    s.p.push_back({ 0, 0, -c });
    Rigid f;
    f.random(g);
    const double unit = meanEdge(s);
    Mesh m;
    auto l = make(m, s, f, &g);
    const bool smooth = g.chance(1, 3);
    calling("curvature");
    auto r = tinymesh::getPrincipalCurvaturesWithDerivatives(m, smooth);
    std::vector<int> em, ec, wa;
    for (size_t k = 0; k < at.size(); k++) {
        const int i = l[at[k]];
        EigenVector e1 = std::get<2>(r), e2 = std::get<3>(r);
        EigenMatrix t1 = std::get<4>(r), t2 = std::get<5>(r);
        const double em_ = c > a ? e2(i) : e1(i), ec_ = c > a ? e1(i) : e2(i);
        D3 t = c > a ? D3{ t2(i, 0), t2(i, 1), t2(i, 2) } : D3{ t1(i, 0), t1(i, 1), t1(i, 2) };
        t = f.back(t);
        const double scale = f.s * f.s * unit * unit;
        em.push_back(fix((t[2] < 0 ? -em_ : em_) * scale, 1e5));
        ec.push_back(fix(std::fabs(ec_) * scale, 1e5));
        wa.push_back(fix(want[k] * unit * unit, 1e5));
    }
    out.line(J().str("op", "deriv").raw("along", jarr(em)).raw("around", jarr(ec)).raw("want", jarr(wa)).done());
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] {
            Rng g(hs);
            calling("make");
            switch (g.upto(5)) {
            case 0: principal(g); break;
            case 1: revolution(g); break;
            case 2: heat(g); break;
            case 3: derivative(g); break;
            default: signatures(g); break;
            }
        }, 30);
        const std::string where = currentCall();
        out.line(J().str("op", "end").str("res", res).str("call", where).str("blame", where == "curvature" || where == "signature" ? "C27" : "").i("hist", i).done());
    }
    return 0;
}
