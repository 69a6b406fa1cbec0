// What calls that must not edit a mesh leave behind.
//   keep OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"
#include "ops/ops.h"

using namespace tinymesh;

static Log out;

static void put(std::string &r, double x) {
    if (x != x) x = NAN;  // one pattern for all
    r.append((const char *)&x, sizeof x);
}
static void put(std::string &r, const EigenVector &v) {
    for (int i = 0; i < v.size(); i++) put(r, v(i));
}
static void put(std::string &r, const EigenMatrix &v) {
    for (int i = 0; i < v.rows(); i++)
        for (int j = 0; j < v.cols(); j++) put(r, v(i, j));
}
static void put(std::string &r, const EigenSparseMatrix &m) {
    for (int k = 0; k < m.outerSize(); k++)
        for (EigenSparseMatrix::InnerIterator it(m, k); it; ++it) {
            put(r, (double)it.row());
            put(r, (double)it.col());
            put(r, it.value());
        }
}
static void put(std::string &r, const Vec3 &p) {
    for (int k = 0; k < 3; k++) put(r, p[k]);
}

static std::map<std::string, int> tok;
static int token(const std::string &s) {
    return tok.emplace(s, (int)tok.size()).first->second;
}

static std::string posTokens(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        std::string s;
        Vec3 p = m.vertex(i)->pos();
        for (int k = 0; k < 3; k++) {
            double x = p[k];
            s.append((const char *)&x, sizeof x);
        }
        r.push_back(token(s));
    }
    return jarr(r);
}

static std::string state(const Mesh &m, Ids &ids) {
    Raw r = Raw::of(m);
    ids.refresh(m);
    std::string d = dumpRaw(m, r, ids, 1);
    std::string vs;
    for (const Vec3 &p : m.getVertices()) put(vs, p);
    return J().raw("s", d).raw("ind", jarr(m.getVertexIndices())).i("listed", token(vs)).raw("pos", posTokens(m)).done();
}

static std::string readFile(const std::string &p) {
    std::string r;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return "none";
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}

static std::string scratch;

static const char *MOVES[] = { "laplacian", "cotangent", "taubin", "fairing", "gaussian", "bilateral", "l0" };
static const char *READS[] = { "means", "measure", "verify", "lists", "adjacent", "cotlap", "belkin", "hks", "hausdorff", "shortest",
                               "derivatives", "principal", "feature", "flags", "clone", "obj", "ply", "hausdorffTo", "shortestFrom" };
static const int NREADS = sizeof(READS) / sizeof(READS[0]);

static std::string read(Mesh &m, const Mesh &other, int k, int arg) {
    std::string r;
    switch (k) {
    case 0:
        put(r, m.getMeanEdgeLength());
        put(r, m.getMeanDihedralAngle());
        put(r, m.getMeanFaceArea());
        break;
    case 1:
        for (int i = 0; i < (int)m.numVertices(); i++) {
            Vertex *v = m.vertex(i);
            put(r, v->normal());
            put(r, v->K());
            put(r, v->H());
            put(r, (double)v->degree());
            put(r, (double)v->isBoundary());
        }
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            put(r, m.halfedge(i)->length());
            put(r, m.halfedge(i)->cotWeight());
            put(r, (double)m.halfedge(i)->isLocked());
        }
        for (int i = 0; i < (int)m.numFaces(); i++) {
            put(r, m.face(i)->normal());
            put(r, m.face(i)->area());
            put(r, (double)m.face(i)->isHole());
            put(r, (double)m.face(i)->numCorners());
        }
        break;
    case 2: put(r, (double)m.verify()); break;
    case 3:
        for (const Vec3 &p : m.getVertices()) put(r, p);
        for (uint32_t x : m.getVertexIndices()) put(r, (double)x);
        break;
    case 4: put(r, getMeshLaplacian(m, MeshLaplace::Adjacent)); break;
    case 5: put(r, getMeshLaplacian(m, MeshLaplace::Cotangent)); break;
    case 6: put(r, getMeshLaplacian(m, MeshLaplace::Belkin08)); break;
    case 7: put(r, getHeatKernelSignatures(getMeshLaplacian(m, MeshLaplace::Cotangent), std::max(1, std::min(6, (int)m.numVertices() / 2 - 1)), 4)); break;
    case 8: put(r, getHausdorffDistance(m, other)); break;
    case 9: put(r, getPerVertexShortestDistances(m, other)); break;
    case 10: {
        auto t = getPrincipalCurvaturesWithDerivatives(m, arg & 1);
        put(r, std::get<0>(t));
        put(r, std::get<1>(t));
        put(r, std::get<2>(t));
        put(r, std::get<3>(t));
        put(r, std::get<4>(t));
        put(r, std::get<5>(t));
        break;
    }
    case 11: {
        auto t = getPrincipalCurvatures(m, arg & 1);
        put(r, std::get<0>(t));
        put(r, std::get<1>(t));
        put(r, std::get<2>(t));
        put(r, std::get<3>(t));
        break;
    }
    case 12: put(r, getFeatureLineField(m, arg & 1)); break;
    case 13: {
        auto t = getFeatureLineFieldWithFlags(m, arg & 1);
        put(r, std::get<0>(t));
        put(r, std::get<1>(t));
        break;
    }
    case 14: {
        Mesh c = m.clone();
        for (const Vec3 &p : c.getVertices()) put(r, p);
        for (uint32_t x : c.getVertexIndices()) put(r, (double)x);
        break;
    }
    case 15:
        m.save(scratch + ".obj");
        r = readFile(scratch + ".obj");
        break;
    case 16:
        m.save(scratch + ".ply");
        r = readFile(scratch + ".ply");
        break;
    case 17: put(r, getHausdorffDistance(other, m)); break;
    case 18: put(r, getPerVertexShortestDistances(other, m)); break;
    }
    return r;
}

static void move(Mesh &m, int kind, int iters, double a) {
    switch (kind) {
    case 0: smoothLaplacian(m, a, false, iters); break;
    case 1: smoothLaplacian(m, a, true, iters); break;
    case 2: smoothTaubin(m, a, a + 0.03, iters); break;
    case 3: implicitFairing(m, a, iters); break;
    case 4: denoiseNormalGaussian(m, 0.2 + a, iters); break;
    case 5: denoiseNormalBilateral(m, 0.2 + a, 0.1 + a, iters); break;
    case 6: denoiseL0Smooth(m, 0.1, 1.0e-1); break;
    }
}

// a mesh with some history behind it
static void edits(Mesh &m, Rng &g) {
    int n = g.chance(1, 2) ? 0 : g.range(1, 12);
    for (int k = 0; k < n; k++) {
        Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
        switch (g.upto(3)) {
        case 0: m.splitHE(h); break;
        case 1: m.flipHE(h); break;
        default:
            if (m.numFaces() > 10) m.collapseHE(h);
            break;
        }
    }
    if (g.chance(1, 4)) m.fillHoles();
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (g.chance(1, 6)) m.vertex(i)->lock();
}

static void one(uint64_t seed) {
    Rng g(seed);
    static const int ck[] = { 0, 1, 2, 4, 7, 13, 8 };
    Shape s = randomShape(g, g.chance(1, 3) ? ck[g.upto(7)] : -1), s2 = randomShape(g);
    Mesh m(s.verts(), s.idx()), other(s2.verts(), s2.idx());
    calling("edits");
    edits(m, g);
    if (!Raw::of(m).sane) return;
    Ids ids, ids2;
    ids.reset(m);
    ids2.reset(other);
    for (int c = 0; c < 4; c++) {
        const int k = g.upto(NREADS), arg = g.upto(2), mv = g.upto(7), it = g.range(0, 3);
        const double a = g.range(0, 9) / 10.0;
        const bool moving = g.chance(1, 3);
        calling(moving ? MOVES[mv] : READS[k]);
        std::string b = state(m, ids), b2 = state(other, ids2);
        std::vector<int> ans;
        // a call may end in a report of the library; what it did in the child
        // is then not seen, and nothing is claimed
        if (moving)
            move(m, mv, it, a);
        else
            for (int t = 0; t < 2; t++) ans.push_back(token(read(m, other, k, arg)));
        out.line(J().str("op", "keep").str("call", moving ? MOVES[mv] : READS[k]).str("kind", moving ? "move" : "read").raw("ans", jarr(ans))
                     .raw("a", b).raw("b", state(m, ids)).done());
        if (!moving && k >= 8 && k != 14)
            out.line(J().str("op", "keep").str("call", READS[k]).str("kind", "read").raw("ans", jarr(ans)).raw("a", b2)
                         .raw("b", state(other, ids2)).done());
    }
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    scratch = std::string(argv[1]) + ".scratch";
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { one(hs); }, 60);
        out.line(J().str("op", "end").str("res", res).str("blame", "").str("call", currentCall()).i("hist", i).done());
    }
    unlink((scratch + ".obj").c_str());
    unlink((scratch + ".ply").c_str());
    return 0;
}
