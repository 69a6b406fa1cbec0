// Hole fillings on real meshes.
//   fill OUT SEED COUNT dp       chosen triangulations, with the area and bending tables of the loop
//   fill OUT SEED COUNT front    advancing-front fillings
#include "common.h"
#include "restore/restore.h"

static Log out;

typedef std::array<long double, 3> P3;
static P3 lp(const Vec3 &v) {
    return { v[0], v[1], v[2] };
}
static P3 sub(const P3 &a, const P3 &b) {
    return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
static P3 crs(const P3 &a, const P3 &b) {
    return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static long double dt(const P3 &a, const P3 &b) {
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
static long double len(const P3 &a) {
    return sqrtl(dt(a, a));
}
// bending across edge x-y between the triangles with apexes p and q: 0 if they
// continue each other in one plane, pi if folded back (or if one has no area)
static long double bend(const P3 &x, const P3 &y, const P3 &p, const P3 &q) {
    P3 n = crs(sub(x, p), sub(y, p)), m = crs(sub(x, q), sub(y, q));
    if (len(n) == 0 || len(m) == 0) return M_PIl;
    return M_PIl - atan2l(len(crs(n, m)), dt(n, m));
}

// ---------------------------------------------------------------- dp
// a cap around a loop of n vertices: loop, and an outer ring at random places
static Shape capAround(Rng &g, int n) {
    for (;;) {
        Shape s;
        int r = g.range(6, 20), R = g.range(22, 32);
        bool flat = g.chance(1, 6);
        for (int i = 0; i < n; i++) {
            double u = 2 * M_PI * i / n;
            s.p.push_back({ (int)std::lround(r * cos(u)) + g.range(-5, 5), (int)std::lround(r * sin(u)) + g.range(-5, 5),
                            flat ? 0 : g.range(-12, 12) });
        }
        for (int i = 0; i < n; i++) {
            double u = 2 * M_PI * (i + 0.5) / n;
            s.p.push_back({ (int)std::lround(R * cos(u)) + g.range(-5, 5), (int)std::lround(R * sin(u)) + g.range(-5, 5),
                            flat ? 0 : g.range(-20, 20) });
        }
        for (int i = 0; i < n; i++) {
            int j = (i + 1) % n;
            s.t.push_back({ i, n + i, j });
            s.t.push_back({ j, n + i, n + j });
        }
        if (s.distinctPos()) return s;
    }
}

static void dp(uint64_t seed) {
    Rng g(seed);
    int n = g.range(0, 9) < 4 ? 4 : g.range(4, 7);
    Shape s = capAround(g, n);
    if (g.chance(1, 2)) shuffleLabels(s, g);
    if (g.chance(1, 2)) flipOrientation(s);
    Mesh m(s.verts(), s.idx());
    std::vector<Face *> holes;
    for (int i = 0; i < (int)m.numFaces(); i++)
        if (m.face(i)->isHole()) holes.push_back(m.face(i));
    Face *f = holes[g.upto((int)holes.size())];
    // no diagonal may repeat an edge of the mesh
    std::vector<Vertex *> l;
    std::vector<P3> p, o;
    for (auto it = f->he_begin(); it != f->he_end(); ++it) {
        l.push_back(it->src());
        p.push_back(lp(it->src()->pos()));
        o.push_back(lp(it->rev()->next()->dst()->pos()));
    }
    n = (int)l.size();
    for (int i = 0; i < n; i++)
        for (auto it = l[i]->v_begin(); it != l[i]->v_end(); ++it)
            for (int j = 0; j < n; j++)
                if (l[j] == it.ptr() && (j - i + n) % n != 1 && (i - j + n) % n != 1) return;
    double bounds[] = { M_PI, 0.2, 0.0, 1.0e-3, 0.7, 1.5 };
    double bound = bounds[g.upto(6)];
    // tables: area[i][m][k], bend[x][y][p][q] (q = n: the triangle outside), in millionths
    const long double U = 1.0e6L;
    std::string area = "[", bd = "[";
    for (int i = 0; i < n; i++) {
        area += i ? ",[" : "[";
        bd += i ? ",[" : "[";
        for (int j = 0; j < n; j++) {
            area += j ? ",[" : "[";
            bd += j ? ",[" : "[";
            for (int k = 0; k < n; k++) {
                area += (k ? "," : "") + std::to_string((long long)llroundl(500.0L * 100 * len(crs(sub(p[j], p[i]), sub(p[k], p[i])))));
                bd += k ? ",[" : "[";
                for (int q = 0; q <= n; q++) {
                    long double b = -1;
                    if (i != j && k != i && k != j && (q == n ? j == i + 1 : (q != i && q != j)))
                        b = bend(p[i], p[j], p[k], q == n ? o[i] : p[q]);
                    bd += (q ? "," : "") + std::to_string(b < 0 ? -1 : (long long)llroundl(b * U));
                }
                bd += "]";
            }
            area += "]";
            bd += "]";
        }
        area += "]";
        bd += "]";
    }
    area += "]";
    bd += "]";
    std::set<std::set<int>> before;
    std::map<Vertex *, int> pos;
    for (int i = 0; i < n; i++) pos[l[i]] = i + 1;
    std::set<Face *> old;
    for (int i = 0; i < (int)m.numFaces(); i++) old.insert(m.face(i));
    calling("fill");
    tinymesh::holeFillMinDihedral(m, f, bound);
    calling("");
    std::vector<std::vector<int>> tris;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *x = m.face(i);
        if (x->isHole()) continue;
        std::vector<int> t;
        bool in = true;
        for (auto it = x->v_begin(); it != x->v_end(); ++it) {
            if (!pos.count(it.ptr())) in = false;
            else t.push_back(pos[it.ptr()]);
        }
        if (!in) continue;
        std::sort(t.begin(), t.end());
        tris.push_back(t);
    }
    out.line("{\"op\":\"dp\",\"n\":" + std::to_string(n) + ",\"bound\":" + std::to_string((long long)llround(bound * 1e6)) +
             ",\"area\":" + area + ",\"bend\":" + bd + ",\"tris\":" + jarr2(tris) + "}");
}

// ------------------------------------------------------------- front
struct DShape {
    std::vector<Vec3> v;
    std::vector<uint32_t> t;
};

static void removeAround(Shape &s, Rng &g, int rings) {
    // remove the triangles around a vertex (and around its neighbours)
    Shape r = s;
    std::set<int> core = { r.t[g.upto((int)r.t.size())][0] };
    for (int k = 1; k < rings; k++) {
        std::set<int> more = core;
        for (auto &t : r.t)
            if (core.count(t[0]) || core.count(t[1]) || core.count(t[2])) more.insert(t.begin(), t.end());
        core = more;
    }
    std::vector<std::array<int, 3>> keep;
    for (auto &t : r.t)
        if (!core.count(t[0]) && !core.count(t[1]) && !core.count(t[2])) keep.push_back(t);
    r.t = keep;
    if (r.t.size() < 4) return;
    r.compact();
    if (manifold(r)) s = r;
}

static void front(uint64_t seed) {
    Rng g(seed);
    Shape s;
    double unit = 1.0;
    // round surfaces in general position with one hole: the filling has to return
    const bool sure = g.chance(1, 3);
    static const int rounds[] = { 0, 6, 8 };
    switch (sure ? rounds[g.upto(3)] : g.upto(9)) {
    case 0: s = sphere(g.range(8, 14), g.range(5, 8), 3000); break;
    case 1: s = grid(g.range(5, 9), g.range(5, 9), 400, &g, 0); break;
    case 2: s = grid(g.range(5, 9), g.range(5, 9), 400, &g, 120); break;
    case 3: s = torus(g.range(12, 18), g.range(8, 10), 2000, 800); break;
    case 4: s = tube(g.range(5, 24), g.range(2, 5), 1500, 600); break;
    case 5: s = disk(g.range(6, 16), g.range(2, 4), 2000); break;
    case 6: s = icosa(1600, 2400); break;
    case 7: s = randomShape(g); for (auto &q : s.p) for (int k = 0; k < 3; k++) q[k] *= 100; break;
    default: s = sphere(g.range(5, 9), g.range(3, 5), 3000); break;
    }
    if (sure) {
        jitter(s, g, 60);
        removeAround(s, g, g.range(1, 2));
    } else {
        if (g.chance(1, 2)) jitter(s, g, 60);
        if (g.chance(2, 3)) removeAround(s, g, g.range(1, 2));
        if (g.chance(1, 4)) removeAround(s, g, 1);
        if (g.chance(1, 4)) punch(s, g, g.range(1, 5));
    }
    if (g.chance(1, 2)) shuffleLabels(s, g);
    s.compact();
    if (!s.distinctPos() || !manifold(s)) return;
    unit = g.chance(1, 2) ? 0.001 : 1.0;
    Mesh m(s.verts(unit), s.idx());
    Ids ids;
    ids.reset(m);
    std::map<std::array<double, 3>, int> tok;
    auto ptok = [&](bool *fin) {
        std::vector<int> r;
        *fin = true;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            Vec3 q = m.vertex(i)->pos();
            std::array<double, 3> a = { q[0], q[1], q[2] };
            for (double x : a)
                if (!std::isfinite(x)) *fin = false;
            bool f = std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]);
            r.push_back(f ? tok.emplace(a, (int)tok.size()).first->second : -1);
        }
        return jarr(r);
    };
    bool fin;
    {
        Raw r = Raw::of(m);
        std::string p = ptok(&fin);
        out.line(J().str("op", "construct").raw("p", p).raw("m", dumpRaw(m, r, ids, 1)).done());
    }
    for (int rep = 0; rep < 2; rep++) {
        std::vector<Face *> holes;
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole()) holes.push_back(m.face(i));
        if (holes.empty()) return;
        Face *f = holes[g.upto((int)holes.size())];
        std::vector<int> loop;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) loop.push_back(ids.of(it.ptr()));
        if (g.chance(1, 3)) m.vertex(g.upto((int)m.numVertices()))->lock();
        calling(sure ? "surefront" : "front");
        tinymesh::holeFillAdvancingFront(m, f);
        calling("");
        ids.refresh(m);
        Raw r = Raw::of(m);
        std::string p = ptok(&fin);
        out.line(J().str("op", "front").raw("loop", jarr(loop)).i("finite", fin).raw("p", p).raw("m", dumpRaw(m, r, ids, 1)).done());
        if (!r.sane) return;
    }
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const std::string mode = argv[4];
    if (!out.open(argv[1])) return 2;
    int hangs = 0;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { mode == "dp" ? dp(hs) : front(hs); }, 6);
        if (!strcmp(res, "hang") && ++hangs > 8) break;
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
