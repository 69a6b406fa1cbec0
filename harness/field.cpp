// Feature line fields of closed meshes with integer positions.
//   field OUT SEED COUNT
#include "common.h"
#include "ops/ops.h"
#include <Eigen/LU>

static Log out;
static int fix(double x, double unit) {
    if (!(std::fabs(x * unit) < 1e8)) return 100000000;
    return (int)std::floor(x * unit + 0.5);
}
static int dir(double x) {  // part of a unit vector
    return std::fabs(x) < 2 ? fix(x, 1e4) : 20000;
}

static Shape closedShape(Rng &g) {
    for (int tries = 0; tries < 200; tries++) {
        Shape s;
        switch (g.upto(7)) {
        case 2:
            s = sphere(g.range(5, 6), 3, 7);
            for (auto &q : s.p) q[0] -= 8;
            s.add(octa(6), 9, 0, 0);
            break;
        case 0: s = torus(g.range(6, 9), g.range(4, 6), 10, 5); break;
        case 1: s = icosa(8, 13); break;
        default: s = sphere(g.range(5, 8), g.range(3, 6), 15); break;
        }
        if (g.chance(1, 3)) {
            const int axis = g.upto(3);
            for (auto &q : s.p) q[axis] = q[axis] * g.range(5, 6) / 8;
        }
        jitter(s, g, g.range(1, 2));
        if (g.chance(1, 2)) shuffleLabels(s, g);
        if (g.chance(1, 4)) flipOrientation(s);
        s.compact();
        bool ok = s.distinctPos() && manifold(s);
        for (auto &q : s.p)
            for (int c = 0; c < 3; c++) ok = ok && std::abs(q[c]) <= 16;
        for (auto &t : s.t) {
            int u[3], v[3];
            for (int c = 0; c < 3; c++) u[c] = s.p[t[1]][c] - s.p[t[0]][c], v[c] = s.p[t[2]][c] - s.p[t[0]][c];
            ok = ok && (u[1] * v[2] != u[2] * v[1] || u[2] * v[0] != u[0] * v[2] || u[0] * v[1] != u[1] * v[0]);
        }
        if (ok) return s;
    }
    return octa(14);
}

static void one(uint64_t seed) {
    Rng g(seed);
    Shape s = closedShape(g);
    static const double units[] = { 1.0, 1.0, 0.25, 4.0 };
    const double unit = units[g.upto(4)];
    const bool smooth = g.chance(1, 2);
    calling("make");
    Mesh m(s.verts(unit), s.idx());
    const int n = (int)m.numVertices();
    calling("curvature");
    const auto c = tinymesh::getPrincipalCurvaturesWithDerivatives(m, smooth);
    calling("field");
    EigenMatrix f;
    EigenVector flags;
    if (g.chance(1, 2)) {
        const auto r = tinymesh::getFeatureLineFieldWithFlags(m, smooth);
        f = std::get<0>(r), flags = std::get<1>(r);
    } else {
        flags = std::get<1>(tinymesh::getFeatureLineFieldWithFlags(m, smooth));
        f = tinymesh::getFeatureLineField(m, smooth);
    }
    calling("");
    std::vector<std::array<int, 3>> p, t, field, x;
    std::vector<int> k1, k2, es, fl;
    std::vector<std::vector<int>> tri;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        std::vector<int> q;
        for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) q.push_back(it->index() + 1);
        tri.push_back(q);
    }
    auto at = [&](int i) { return m.vertex(i)->pos(); };
    for (int i = 0; i < n; i++) {
        p.push_back({ fix(at(i)[0] / unit, 1), fix(at(i)[1] / unit, 1), fix(at(i)[2] / unit, 1) });
        k1.push_back(fix(std::get<0>(c)(i), 1e5));
        k2.push_back(fix(std::get<1>(c)(i), 1e5));
        const double e = std::get<2>(c)(i);
        es.push_back(std::fabs(e) * unit * unit < 1e-7 ? 0 : e > 0 ? 1 : -1);
        t.push_back({ dir(std::get<4>(c)(i, 0)), dir(std::get<4>(c)(i, 1)), dir(std::get<4>(c)(i, 2)) });
        field.push_back({ dir(f(i, 0)), dir(f(i, 1)), dir(f(i, 2)) });
        fl.push_back(flags(i) == 0.0 ? 0 : flags(i) == 1.0 ? 1 : 2);
    }
    // the harmonic extension of the directions at the marked vertices
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n), b = Eigen::MatrixXd::Zero(n, 3);
    for (auto &q : tri)
        for (int k = 0; k < 3; k++) {
            const int a = q[k] - 1, d = q[(k + 1) % 3] - 1, o = q[(k + 2) % 3] - 1;
            const Vec3 u = at(a) - at(o), v = at(d) - at(o);
            const double cx = u[1] * v[2] - u[2] * v[1], cy = u[2] * v[0] - u[0] * v[2], cz = u[0] * v[1] - u[1] * v[0];
            const double w = (u[0] * v[0] + u[1] * v[1] + u[2] * v[2]) / std::sqrt(cx * cx + cy * cy + cz * cz);
            A(a, d) -= w, A(d, a) -= w, A(a, a) += w, A(d, d) += w;
        }
    bool any = false;
    for (int i = 0; i < n; i++)
        if (fl[i] == 1) {
            any = true;
            A.row(i).setZero();
            A(i, i) = 1;
            b.row(i) = f.row(i);
        }
    Eigen::MatrixXd X = any ? Eigen::MatrixXd(A.fullPivLu().solve(b)) : b;
    for (int i = 0; i < n; i++) {
        std::array<int, 3> q;
        for (int k = 0; k < 3; k++) q[k] = std::fabs(X(i, k)) < 4 ? fix(X(i, k), 1e5) : 400000;
        x.push_back(q);
    }
    out.line(J().str("op", "field").raw("tri", jarr2(tri)).raw("p", jarr2(p)).raw("k1", jarr(k1)).raw("k2", jarr(k2)).raw("es", jarr(es))
                 .raw("t", jarr2(t)).raw("flags", jarr(fl)).raw("field", jarr2(field)).raw("x", jarr2(x)).done());
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const char *res = runChild([&] { one(seed * 1000003ull + (uint64_t)i); }, 60);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
