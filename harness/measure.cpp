// Laplacians and measurements of meshes with integer positions.
//   measure OUT SEED COUNT lap|geo
#include "common.h"
#include "ops/ops.h"

static Log out;
static const int NoLog = 1000000000;

static int fix(double x, double unit = 1e5) {
    if (!(std::fabs(x * unit) < 1e9)) return NoLog;
    return (int)std::floor(x * unit + 0.5);
}
using D3 = std::array<double, 3>;
static D3 at(const Vertex *v) {
    Vec3 p = v->pos();
    return { p[0], p[1], p[2] };
}
static D3 sub(D3 a, D3 b) {
    return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
static double dotp(D3 a, D3 b) {
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
static double len(D3 a) {
    return std::sqrt(dotp(a, a));
}
static D3 crossp(D3 a, D3 b) {
    return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static double ang(D3 u, D3 v) {
    return std::acos(std::max(-1.0, std::min(1.0, dotp(u, v) / (len(u) * len(v)))));
}

// a mesh whose positions are integers, by construction or after edits
struct Subject {
    Mesh m;
    double s = 1;
    std::vector<std::array<int, 3>> p, t;
    std::vector<Face *> faces;
    std::vector<std::array<Vertex *, 3>> corners;
    bool ok = true;
    Subject(Rng &g, bool closed) {
        Shape sh = latticeShape(g, closed);
        m.construct(sh.verts(), sh.idx());
        if (g.chance(1, 2))
            for (int k = g.range(1, 8); k > 0; k--) {
                Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
                switch (g.upto(3)) {
                case 0: {
                    D3 a = at(h->src()), b = at(h->dst());
                    bool even = true;
                    for (int c = 0; c < 3; c++) even = even && std::fmod(a[c] + b[c], 2.0) == 0;
                    if (even) m.splitHE(h);
                    break;
                }
                case 1: m.flipHE(h); break;
                default:
                    if (m.numFaces() > 8) m.collapseHE(h);
                    break;
                }
            }
        for (int i = 0; i < (int)m.numVertices(); i++) {
            D3 q = at(m.vertex(i));
            p.push_back({ (int)q[0], (int)q[1], (int)q[2] });
            for (int c = 0; c < 3; c++) ok = ok && q[c] == (int)q[c];
        }
        std::set<Face *> done;
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            Halfedge *h = m.halfedge(i);
            if (h->face()->isHole() || !done.insert(h->face()).second) continue;
            Vertex *a = h->src(), *b = h->dst(), *c = h->next()->dst();
            t.push_back({ (int)a->index() + 1, (int)b->index() + 1, (int)c->index() + 1 });
            faces.push_back(h->face());
            corners.push_back({ a, b, c });
            if (len(crossp(sub(at(b), at(a)), sub(at(c), at(a)))) == 0) ok = false;
        }
        // positions twice as large or in the unit of the exact arithmetic
    }
};

static void laplacian(uint64_t seed) {
    Rng g(seed);
    calling("make");
    const int kind = g.upto(3);
    Subject s(g, g.chance(1, 2));
    if (!s.ok) return;
    static const char *names[] = { "adj", "cot", "gauss" };
    static const tinymesh::MeshLaplace kinds[] = { tinymesh::Adjacent, tinymesh::Cotangent, tinymesh::Belkin08 };
    double sum = 0;
    int ne = 0;
    for (int i = 0; i < (int)s.m.numHalfedges(); i++) {
        sum += len(sub(at(s.m.halfedge(i)->src()), at(s.m.halfedge(i)->dst())));
        ne++;
    }
    calling("laplacian");
    EigenSparseMatrix L = tinymesh::getMeshLaplacian(s.m, kinds[kind]);
    std::vector<std::array<int, 3>> en;
    std::vector<double> rows((size_t)std::max<long>(0, L.rows()), 0.0);
    std::map<std::pair<int, int>, double> all;
    for (int k = 0; k < L.outerSize(); k++)
        for (EigenSparseMatrix::InnerIterator it(L, k); it; ++it) {
            rows[it.row()] += it.value();
            all[{ (int)it.row() + 1, (int)it.col() + 1 }] += it.value();
        }
    for (auto &kv : all) {
        const int a = kv.first.first, b = kv.first.second;
        const double x = kv.second;
        if (x == 0) continue;
        int v;
        if (kind == 0)
            v = x == std::floor(x) ? fix(x, 1) : NoLog;
        else if (kind == 1 || a == b)
            v = fix(x);
        else
            v = x < 0 ? fix(std::log(-x)) : NoLog;
        en.push_back({ a, b, v });
    }
    std::vector<int> rs;
    for (double r : rows) rs.push_back(fix(r, 1e6));
    out.line(J().str("op", "lap").str("kind", names[kind]).raw("tri", jarr2(s.t)).raw("p", jarr2(s.p)).i("rows", L.rows()).i("cols", L.cols())
                 .raw("en", jarr2(en)).raw("rs", jarr(rs)).i("lnc", fix(std::log(4 * M_PI * sum / ne))).done());
    calling("");
}

static void geometry(uint64_t seed) {
    Rng g(seed);
    calling("make");
    Subject s(g, true);
    if (!s.ok) return;
    calling("measure");
    const int nv = (int)s.m.numVertices();
    std::vector<int> fa, va, ka, ag, da;
    std::vector<std::array<int, 3>> fn, sh, el;
    std::vector<double> turn(nv, 0.0);
    for (size_t f = 0; f < s.faces.size(); f++) {
        fa.push_back(fix(s.faces[f]->area()));
        Vec3 n = s.faces[f]->normal();
        fn.push_back({ fix(n[0]), fix(n[1]), fix(n[2]) });
        std::array<int, 3> w;
        for (int c = 0; c < 3; c++) {
            Vertex *o = s.corners[f][c], *a = s.corners[f][(c + 1) % 3], *b = s.corners[f][(c + 2) % 3];
            w[c] = fix(o->volonoiArea(s.faces[f]));
            turn[o->index()] += ang(sub(at(a), at(o)), sub(at(b), at(o)));
        }
        sh.push_back(w);
    }
    for (int i = 0; i < nv; i++) {
        Vertex *v = s.m.vertex(i);
        va.push_back(fix(v->volonoiArea()));
        ka.push_back(fix(v->K() * v->volonoiArea()));
        ag.push_back(fix(turn[i]));
    }
    for (int i = 0; i < (int)s.m.numHalfedges(); i++) {
        Halfedge *h = s.m.halfedge(i);
        el.push_back({ (int)h->src()->index() + 1, (int)h->dst()->index() + 1, fix(h->length()) });
        if (h->src()->index() < h->dst()->index()) {
            D3 a = at(h->src()), e = sub(at(h->dst()), a), u = sub(at(h->next()->dst()), a), v = sub(at(h->rev()->next()->dst()), a);
            const double ee = dotp(e, e), tu = dotp(u, e) / ee, tv = dotp(v, e) / ee;
            for (int c = 0; c < 3; c++) {
                u[c] -= tu * e[c];
                v[c] -= tv * e[c];
            }
            da.push_back(fix(ang(u, v)));
        }
    }
    out.line(J().str("op", "geo").raw("tri", jarr2(s.t)).raw("p", jarr2(s.p)).raw("fa", jarr(fa)).raw("fn", jarr2(fn)).raw("sh", jarr2(sh))
                 .raw("va", jarr(va)).raw("ka", jarr(ka)).raw("ag", jarr(ag)).raw("el", jarr2(el)).raw("da", jarr(da))
                 .i("mel", fix(s.m.getMeanEdgeLength())).i("mfa", fix(s.m.getMeanFaceArea())).i("mda", fix(s.m.getMeanDihedralAngle())).done());
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const bool lap = !strcmp(argv[4], "lap");
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { lap ? laplacian(hs) : geometry(hs); }, 20);
        const std::string where = currentCall();
        out.line(J().str("op", "end").str("res", res).str("call", where)
                     .str("blame", where == "make" || where == "" ? "" : lap ? "C22" : "C26").i("hist", i).done());
    }
    return 0;
}
