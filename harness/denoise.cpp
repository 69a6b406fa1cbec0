// Implicit fairing, normal filtering and L0 denoising on real meshes.
//   denoise OUT SEED COUNT fair|filter|flat
#include "common.h"
#include "filters/filters.h"

static Log out;

static double vdot(const Vec3 &a, const Vec3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double vlen(const Vec3 &a) { return std::sqrt(vdot(a, a)); }
static Vec3 vcross(const Vec3 &a, const Vec3 &b) {
    return Vec3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}

static std::vector<Vec3> positions(const Mesh &m) {
    std::vector<Vec3> r;
    for (int i = 0; i < (int)m.numVertices(); i++) r.push_back(m.vertex(i)->pos());
    return r;
}

static long long fix(double x, double unit) {
    const double y = x * unit;
    return std::isfinite(y) && std::fabs(y) < 9.0e6 ? std::llround(y) : 20000000;
}

static std::array<long long, 3> fix3(const Vec3 &q, double unit) {
    return { fix(q[0], unit), fix(q[1], unit), fix(q[2], unit) };
}

static std::string fixed(const std::vector<Vec3> &p, double unit) {
    std::vector<std::array<long long, 3>> r;
    for (auto &q : p) r.push_back(fix3(q, unit));
    return jarr2(r);
}

static std::string kept_(const std::vector<Vec3> &a, const std::vector<Vec3> &b) {
    std::vector<int> r;
    for (size_t i = 0; i < a.size(); i++) {
        bool s = true;
        for (int k = 0; k < 3; k++) {
            double x = a[i][k], y = b[i][k];
            if (memcmp(&x, &y, sizeof x)) s = false;
        }
        r.push_back(s);
    }
    return jarr(r);
}

static std::vector<std::vector<int>> corners(const Mesh &m) {
    std::vector<std::vector<int>> r;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        std::vector<int> t;
        for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) t.push_back(it->index() + 1);
        r.push_back(t);
    }
    return r;
}

// closed, coordinates of absolute value at most 16
static Shape closedShape(Rng &g, int bumps) {
    for (int tries = 0; tries < 200; tries++) {
        Shape s;
        switch (g.upto(7)) {
        case 0: s = tetra(12); break;
        case 1: s = octa(14); break;
        case 2: s = icosa(8, 13); break;
        case 3: s = torus(g.range(5, 7), g.range(3, 4), 10, 5); break;
        case 4:
            s = octa(7);
            s.add(tetra(5), 10, 1, 0);
            break;
        default: s = sphere(g.range(3, 7), g.range(1, 4), 14); break;
        }
        if (bumps) jitter(s, g, g.range(0, bumps));
        if (g.chance(1, 2)) shuffleLabels(s, g);
        if (g.chance(1, 4)) flipOrientation(s);
        s.compact();
        bool ok = s.distinctPos() && manifold(s);
        for (auto &q : s.p)
            for (int c = 0; c < 3; c++) ok = ok && std::abs(q[c]) <= 16;
        if (ok) return s;
    }
    return octa(14);
}

// all cotangent weights positive?
static bool fairShape(const Shape &s) {
    auto at = [&](int i) { return Vec3((double)s.p[i][0], (double)s.p[i][1], (double)s.p[i][2]); };
    std::map<std::pair<int, int>, double> w;
    for (auto &t : s.t)
        for (int k = 0; k < 3; k++) {
            const int a = t[k], b = t[(k + 1) % 3], o = t[(k + 2) % 3];
            const Vec3 u = at(a) - at(o), v = at(b) - at(o);
            const double c = vlen(vcross(u, v));
            if (c == 0.0) return false;
            w[{ std::min(a, b), std::max(a, b) }] += vdot(u, v) / c;
        }
    for (auto &kv : w)
        if (kv.second < 0.0) return false;
    return true;
}

static void fairing(Rng &g) {
    Shape s = closedShape(g, 2);
    for (int k = 0; k < 60 && !fairShape(s); k++) s = closedShape(g, k < 30 ? 2 : 1);
    Mesh m(s.verts(), s.idx());
    const std::vector<Vec3> p = positions(m);
    static const int strengths[] = { 0, 1, 5, 10, 10, 20, 50 };
    const int e = strengths[g.upto(7)];
    const int kind = g.upto(8);
    if (kind == 0) {
        calling("fair");
        tinymesh::implicitFairing(m, e / 10.0, 0);
        calling("");
        out.line(J().str("op", "still").raw("kept", kept_(p, positions(m))).done());
        return;
    }
    if (kind == 1) {
        Mesh w(s.verts(), s.idx());
        const int n = g.range(2, 4);
        calling("fair");
        tinymesh::implicitFairing(m, e / 10.0, n);
        for (int k = 0; k < n; k++) tinymesh::implicitFairing(w, e / 10.0, 1);
        calling("");
        out.line(J().str("op", "same").i("tol", 2).raw("p", fixed(positions(w), 1e3)).raw("q", fixed(positions(m), 1e3)).done());
        return;
    }
    calling("fair");
    tinymesh::implicitFairing(m, e / 10.0, 1);
    calling("");
    out.line(J().str("op", "fair").i("num", e).i("den", 10).raw("tri", jarr2(corners(m))).raw("p", fixed(p, 1)).raw("q", fixed(positions(m), 1e3)).done());
}

// the Gaussian with its smooth cut-off (only used to find the new normals,
// which the specification verifies)
static double kernel(double x) {
    if (x < 2.0) return std::exp(-x * x / 2.0);
    if (x < 4.0) return std::pow(4.0 - x, 4.0) / (16.0 * std::exp(2.0));
    return 0.0;
}

// positions after the default Taubin smoothing of a closed surface
static std::vector<Vec3> taubin(std::vector<Vec3> P, const std::vector<std::set<int>> &nb) {
    for (int h = 0; h < 6; h++) {
        std::vector<Vec3> Q = P;
        for (size_t v = 0; v < P.size(); v++) {
            Vec3 c(0.0);
            for (int x : nb[v]) c += P[x];
            Q[v] = P[v] + (h % 2 ? -0.53 : 0.5) * (c / (double)nb[v].size() - P[v]);
        }
        P = Q;
    }
    return P;
}

static void filtering(Rng &g) {
    for (int tries = 0; tries < 100; tries++) {
        Shape s = closedShape(g, g.range(1, 5));
        if (s.t.size() > 44) continue;
        const bool gauss = g.chance(1, 2);
        static const int centre[] = { 20, 30, 40, 60, 100, 200 }, normal[] = { 10, 25, 50, 100 };
        const int sc = centre[g.upto(6)], sn = normal[g.upto(4)];
        const int k = g.chance(2, 3) ? 0 : g.range(1, 2);
        auto run = [&](Mesh &m, int n) {
            calling("filter");
            if (gauss) tinymesh::denoiseNormalGaussian(m, sc / 100.0, n);
            else tinymesh::denoiseNormalBilateral(m, sc / 100.0, sn / 100.0, n);
            calling("");
        };
        Mesh m0(s.verts(), s.idx()), mk(s.verts(), s.idx()), mq(s.verts(), s.idx());
        const std::vector<Vec3> p0 = positions(m0);
        run(mk, k);
        const std::vector<Vec3> pk = positions(mk);
        if (k == 0 && g.chance(1, 6)) {
            out.line(J().str("op", "still").raw("kept", kept_(p0, pk)).done());
            return;
        }
        // positions after the smoothing inside of the iteration
        const std::vector<std::vector<int>> F = corners(m0);
        std::map<std::pair<int, int>, int> own;
        std::vector<std::set<int>> nb(p0.size());
        for (int f = 0; f < (int)F.size(); f++)
            for (int c = 0; c < 3; c++) {
                own[{ F[f][c], F[f][(c + 1) % 3] }] = f;
                nb[F[f][c] - 1].insert(F[f][(c + 1) % 3] - 1);
                nb[F[f][(c + 1) % 3] - 1].insert(F[f][c] - 1);
            }
        const std::vector<Vec3> P = taubin(pk, nb);
        double sum = 0.0;
        int ne = 0;
        for (size_t v = 0; v < p0.size(); v++)
            for (int x : nb[v]) {
                sum += vlen(p0[v] - p0[x]);
                ne++;
            }
        const double mean = sum / ne;
        bool ok = true;
        const int nf = (int)F.size();
        std::vector<Vec3> n(nf), c(nf), nn(nf);
        std::vector<double> a(nf);
        for (int f = 0; f < nf && ok; f++) {
            const Vec3 x = P[F[f][0] - 1], y = P[F[f][1] - 1], z = P[F[f][2] - 1];
            const Vec3 o = vcross(y - x, z - x);
            a[f] = vlen(o);
            if (a[f] < 0.5 || a[f] > 400.0) ok = false;
            else n[f] = o / a[f];
            c[f] = (x + y + z) / 3.0;
            if (vlen(y - x) > 20.0 || vlen(z - x) > 20.0) ok = false;
        }
        for (auto &q : P)
            for (int d = 0; d < 3; d++) ok = ok && std::fabs(q[d]) < 18.0;
        if (!ok) continue;
        std::vector<std::vector<long long>> dist, nd;
        for (int f = 0; f < nf; f++) {
            std::vector<long long> ds, es;
            Vec3 t(0.0);
            for (int e = 0; e < 3; e++) {
                const int j = own[{ F[f][(e + 1) % 3], F[f][e] }];
                const double d = vlen(c[f] - c[j]), x = vlen(n[f] - n[j]);
                ds.push_back(fix(d, 1e3));
                es.push_back(fix(x, 1e4));
                t += (kernel(d / (sc / 100.0 * mean)) * (gauss ? 1.0 : kernel(x / (sn / 100.0))) * a[j]) * n[j];
            }
            dist.push_back(ds);
            nd.push_back(es);
            const double l = vlen(t);
            nn[f] = l > 0.0 ? t / l : Vec3(0.0);
        }
        run(mq, k + 1);
        std::vector<long long> area;
        for (double x : a) area.push_back(fix(x, 1e4));
        J j;
        j.str("op", "filter").str("kind", gauss ? "gauss" : "bilat").i("sc", sc).i("sn", sn).i("mean", fix(mean, 1e3));
        j.raw("tri", jarr2(F)).raw("p0", fixed(p0, 1)).raw("pk", fixed(pk, 1e4)).raw("pt4", fixed(P, 1e4)).raw("pt", fixed(P, 1e3));
        j.raw("nrm", fixed(n, 1e4)).raw("nn", fixed(nn, 1e4)).raw("area", jarr(area)).raw("dist", jarr2(dist)).raw("nd", jarr2(nd));
        j.raw("q", fixed(positions(mq), 1e3));
        out.line(j.done());
        return;
    }
}

// A X = B for a dense system
static std::vector<Vec3> solve(std::vector<std::vector<double>> A, std::vector<Vec3> B) {
    const int n = (int)B.size();
    for (int i = 0; i < n; i++) {
        int piv = i;
        for (int j = i + 1; j < n; j++)
            if (std::fabs(A[j][i]) > std::fabs(A[piv][i])) piv = j;
        std::swap(A[i], A[piv]);
        std::swap(B[i], B[piv]);
        for (int j = 0; j < n; j++) {
            if (j == i || A[j][i] == 0.0) continue;
            const double f = A[j][i] / A[i][i];
            for (int k = i; k < n; k++) A[j][k] -= f * A[i][k];
            B[j] = B[j] - f * B[i];
        }
    }
    for (int i = 0; i < n; i++) B[i] = B[i] / A[i][i];
    return B;
}

static std::vector<Vec3> scaled(const Shape &s, double f) {
    std::vector<Vec3> r;
    for (auto &q : s.verts()) r.push_back(q * f);
    return r;
}

// the rounds of L0 denoising, found here and verified by the specification
static void flattening(Rng &g) {
    if (g.chance(1, 3)) {
        // any mesh: the mean of all positions
        Shape s = g.chance(1, 2) ? closedShape(g, g.chance(1, 2) ? 0 : 3) : randomShape(g);
        const bool regular = g.chance(1, 3);
        static const double al[] = { 0.0, 0.1, 0.1, 0.25, 1.0 }, be[] = { 0.001, 0.001, 0.1, 10.0, 100.0, 400.0 };
        const double a = al[g.upto(5)], b = be[g.upto(6)];
        const int k = g.range(-4, 3);
        std::vector<Vec3> v;
        std::vector<uint32_t> f;
        if (regular) {
            // regular polygons on circles; all equal but for rounding
            const int n = g.range(3, 9), r = g.range(1, 5), top = g.upto(2);
            const double pi = std::acos(-1.0);
            v.push_back(Vec3(0.0, 0.0, -1.0));
            for (int i = 0; i < r; i++)
                for (int j = 0; j < n; j++) {
                    const double t = (i + 1) * pi / (r + 1), u = (j + 0.5 * (i % 2)) * 2.0 * pi / n;
                    v.push_back(Vec3(std::sin(t) * std::cos(u), std::sin(t) * std::sin(u), -std::cos(t)));
                }
            v.push_back(Vec3(0.0, 0.0, 1.0));
            const uint32_t last = (uint32_t)v.size() - 1;
            auto at = [&](int i, int j) { return (uint32_t)(1 + i * n + (j + n) % n); };
            auto tri = [&](uint32_t x, uint32_t y, uint32_t z) { f.insert(f.end(), { x, y, z }); };
            for (int j = 0; j < n; j++) {
                tri(0, at(0, j + 1), at(0, j));
                for (int i = 0; i + 1 < r; i++) {
                    if (i % 2) {
                        tri(at(i, j), at(i, j + 1), at(i + 1, j + 1));
                        tri(at(i, j), at(i + 1, j + 1), at(i + 1, j));
                    } else {
                        tri(at(i, j), at(i, j + 1), at(i + 1, j));
                        tri(at(i, j + 1), at(i + 1, j + 1), at(i + 1, j));
                    }
                }
                if (!top || r < 2) tri(last, at(r - 1, j), at(r - 1, j + 1));
            }
            if (top && r >= 2) v.pop_back();
        } else {
            v = s.verts();
            f = s.idx();
        }
        double size = 0.0;
        for (auto &q : v)
            for (int c = 0; c < 3; c++) size = std::max(size, std::fabs(q[c]));
        for (auto &q : v) q = q * std::ldexp(1.0 / size, k);
        Mesh m(v, f);
        bool ok = true;
        for (int i = 0; i < (int)m.numFaces(); i++) ok = ok && m.face(i)->area() > 1e-4 * std::ldexp(1.0, 2 * k);
        if (!ok) return;
        auto mean = [&] {
            Vec3 c(0.0);
            for (auto &q : positions(m)) c += q;
            return fix3(c / (double)m.numVertices(), std::ldexp(1e5, -k));
        };
        const auto p = mean();
        calling("flat");
        tinymesh::denoiseL0Smooth(m, a, b);
        calling("");
        out.line(J().str("op", "centre").i("tol", 2).raw("p", jarr(p)).raw("q", jarr(mean())).done());
        return;
    }
    for (int tries = 0; tries < 200; tries++) {
        Shape s = closedShape(g, g.range(0, 4));
        if (s.t.size() > 44) continue;
        Mesh m0(s.verts(), s.idx());
        const std::vector<Vec3> p = positions(m0);
        const std::vector<std::vector<int>> F = corners(m0);
        const int nv = (int)p.size();
        std::map<std::pair<int, int>, int> apex;
        std::vector<std::set<int>> nb(nv);
        for (auto &t : F)
            for (int c = 0; c < 3; c++) {
                const int x = t[c] - 1, y = t[(c + 1) % 3] - 1;
                apex[{ x, y }] = t[(c + 2) % 3] - 1;
                nb[x].insert(y);
                nb[y].insert(x);
            }
        const std::vector<Vec3> P = taubin(p, nb);
        bool ok = true;
        for (auto &t : F) {
            const double a = vlen(vcross(P[t[1] - 1] - P[t[0] - 1], P[t[2] - 1] - P[t[0] - 1]));
            ok = ok && a > 4.0 && a < 400.0;
            for (int c = 0; c < 3; c++) {
                const double l = vlen(P[t[c] - 1] - P[t[(c + 1) % 3] - 1]);
                ok = ok && l > 1.5 && l < 20.0;
            }
        }
        if (!ok) continue;
        struct Edge {
            int v[4];
            double c[4];
        };
        std::vector<Edge> es;
        double mean = 0.0, theta = 0.0;
        for (auto &kv : apex) {
            const int x = kv.first.first, y = kv.first.second;
            if (x > y) continue;
            Edge e = { { x, kv.second, y, apex[{ y, x }] }, {} };
            const Vec3 a = P[e.v[0]], b = P[e.v[1]], c = P[e.v[2]], d = P[e.v[3]];
            const double s2 = vlen(vcross(b - a, c - a)), s4 = vlen(vcross(d - a, c - a)), l2 = vdot(c - a, c - a);
            e.c[1] = s4 / (s2 + s4);
            e.c[3] = s2 / (s2 + s4);
            // the point of both apexes' weighted mean over the edge
            const double u2 = vdot(b - a, c - a) / l2, u4 = vdot(d - a, c - a) / l2;
            const double u = e.c[1] * u2 + e.c[3] * u4;
            e.c[0] = -(1.0 - u);
            e.c[2] = -u;
            for (double w : e.c) ok = ok && std::fabs(w) < 3.5;
            es.push_back(e);
            mean += vlen(p[x] - p[y]);
            const Vec3 n2 = vcross(p[e.v[0]] - p[e.v[1]], p[e.v[2]] - p[e.v[1]]), n4 = vcross(p[e.v[0]] - p[e.v[3]], p[e.v[2]] - p[e.v[3]]);
            const double l = vlen(n2) * vlen(n4);
            theta += l > 0.0 ? std::acos(std::max(-1.0, std::min(1.0, vdot(n2, n4) / l))) : 0.0;
        }
        if (!ok) continue;
        mean /= (double)es.size();
        theta /= (double)es.size();
        int k = 0;
        while (std::ldexp(mean, -k) > 0.0015) k++;
        static const int alphas[] = { 0, 50, 200, 500, 1000, 2000 };
        const int alpha = alphas[g.upto(6)];
        const int beta = g.chance(1, 8) ? g.range(1000, 1100) : g.chance(1, 2) ? g.range(708, 999) : g.range(360, 707);
        if (beta == 500) continue;
        double al = std::ldexp(alpha * mean, -k), be = std::ldexp(beta * mean, -k), b = beta;
        std::vector<std::vector<Vec3>> steps;
        std::vector<std::vector<std::vector<int>>> kept;
        std::vector<Vec3> x = p;
        for (; b < 1000.0; b *= std::sqrt(2.0), be *= std::sqrt(2.0), al *= 0.5) {
            std::vector<std::vector<double>> A(nv, std::vector<double>(nv, 0.0));
            std::vector<Vec3> B = p;
            for (int i = 0; i < nv; i++) A[i][i] = 1.0;
            const double lim = 0.02 * mean * mean * theta / be;
            kept.emplace_back();
            for (auto &e : es) {
                static const double r[] = { 1.0, -1.0, 1.0, -1.0 };
                Vec3 y(0.0);
                for (int i = 0; i < 4; i++) {
                    y += e.c[i] * x[e.v[i]];
                    for (int j = 0; j < 4; j++) A[e.v[i]][e.v[j]] += al * r[i] * r[j] + be * e.c[i] * e.c[j];
                }
                const double n2 = vdot(y, y);
                if (std::fabs(n2 - lim) < 1e-6 * lim) ok = false;
                if (n2 < lim) continue;
                kept.back().push_back({ e.v[0] + 1, e.v[2] + 1 });
                for (int i = 0; i < 4; i++) B[e.v[i]] += (be * e.c[i]) * y;
            }
            x = solve(A, B);
            steps.push_back(x);
        }
        if (!ok) continue;
        Mesh m(scaled(s, std::ldexp(1.0, -k)), s.idx());
        const std::vector<Vec3> before = positions(m);
        calling("flat");
        tinymesh::denoiseL0Smooth(m, alpha, beta);
        calling("");
        if (steps.empty()) {
            out.line(J().str("op", "still").raw("kept", kept_(before, positions(m))).done());
            return;
        }
        std::string js = "[", jk = "[";
        for (size_t i = 0; i < steps.size(); i++) {
            js += (i ? "," : "") + fixed(steps[i], 1e3);
            jk += (i ? "," : "") + jarr2(kept[i]);
        }
        J j;
        j.str("op", "flat").i("alpha", alpha).i("beta", beta).i("scale", 1 << k).i("mean", fix(mean, 1e3)).i("theta", fix(theta, 1e4));
        j.raw("tri", jarr2(F)).raw("p0", fixed(p, 1)).raw("pt4", fixed(P, 1e4)).raw("pt", fixed(P, 1e3));
        j.raw("steps", js + "]").raw("kept", jk + "]").raw("q", fixed(positions(m), std::ldexp(1e3, k)));
        out.line(j.done());
        return;
    }
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const bool fair = !strcmp(argv[4], "fair"), flat = !strcmp(argv[4], "flat");
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild(
            [&] {
                Rng g(hs);
                if (fair) fairing(g);
                else if (flat) flattening(g);
                else filtering(g);
            },
            30);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
