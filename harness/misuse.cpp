// Calls of the library with proper and improper arguments, in the plain build and in the build
// that goes into the Python module (there a report is an exception the caller survives).
#include "common.h"
#include "core/bvh.h"
#include "core/triangle.h"
#include "ops/ops.h"
#include "filters/filters.h"
#include "remesh/remesh.h"
#include <fstream>
#include <signal.h>

using namespace tinymesh;

static Log out;
#if defined(TINYMESH_PYTHON_MODULE)
static const bool inModule = true;
#else
static const bool inModule = false;
#endif
static std::string dir;

struct Call {
    J head;
    std::function<void()> run;                   // the call itself
    std::function<bool()> kept = [] { return true; };   // after a report
    std::function<bool()> anew = [] { return true; };
    std::function<bool()> right = [] { return true; };  // after a return
};

static void make(Call &c) {
    c.head.str("mode", inModule ? "module" : "plain");
    const std::string head = c.head.s;
    auto say = [&](const char *res, bool kept, bool anew) {
        out.line(head + ",\"res\":\"" + res + "\",\"kept\":" + (kept ? "true" : "false") + ",\"anew\":" + (anew ? "true" : "false") + "}");
    };
    const char *res = runChild([&] {
        if (inModule) {
            std::set_terminate([] { _exit(98); });
            signal(SIGABRT, [](int) { _exit(98); });
        }
        const char *seen = "ok";
        if (inModule) {
            try {
                c.run();
            } catch (const std::runtime_error &) {
                seen = "error";
            } catch (const std::exception &) {
                seen = "exception";
            }
        } else {
            c.run();
        }
        bool kept = true, anew = true;
        if (strcmp(seen, "ok") != 0) {
            kept = c.kept();
            anew = c.anew();
        } else if (!c.right()) {
            seen = "wrong";
        }
        say(seen, kept, anew);
    }, 30);
    if (strcmp(res, "ok") != 0) say(res, true, true);
}

// ------------------------------------------------------------------ lists
struct List {
    std::vector<Vec3> v;
    std::vector<uint32_t> ix;
};

static List makeList(Rng &g) {
    Shape s = g.chance(1, 3) ? tetra(g.range(1, 4)) : randomShape(g);
    List l;
    l.v = s.verts(0.25);
    l.ix = s.idx();
    if (l.ix.size() > 90) l.ix.resize(90);
    switch (g.upto(8)) {
    case 0:
    case 1: break;
    case 2: l.ix.resize(l.ix.size() - (size_t)g.range(1, 2)); break;
    case 3: {
        const int k = g.range(1, 2);
        for (int j = 0; j < k; j++) l.ix.push_back((uint32_t)g.upto((int)l.v.size()));
        break;
    }
    case 4:
    case 5: {
        static const uint32_t far[] = { 0, 0, 0, 1, 2, 50, 100000, 2000000000u };
        const uint32_t by = far[g.upto(8)];
        l.ix[(size_t)g.upto((int)l.ix.size())] = (uint32_t)l.v.size() + by;
        break;
    }
    case 6: {   // the last entries are not there
        const int k = g.range(1, 2);
        for (int j = 0; j < k && l.v.size() > 1; j++) l.v.pop_back();
        break;
    }
    default:
        if (g.chance(1, 2)) l.v.clear();
        else if (g.chance(1, 2)) l.ix.clear();
        else if (g.chance(1, 2)) l.ix.resize((size_t)g.range(1, 2));
    }
    l.v.shrink_to_fit();
    l.ix.shrink_to_fit();
    return l;
}

static void listHead(Call &c, const char *name, const List &l) {
    std::map<std::array<double, 3>, int> tok;
    std::vector<int> pt;
    for (auto &p : l.v) pt.push_back(tok.emplace(std::array<double, 3>{ p[0] + 0.0, p[1] + 0.0, p[2] + 0.0 }, (int)tok.size()).first->second);
    std::vector<long long> ix;
    for (auto i : l.ix) ix.push_back(std::min<long long>(i, 2000000000));
    c.head.str("op", "call").str("call", name).i("n", (int)l.v.size()).raw("ix", jarr(ix)).raw("pt", jarr(pt));
}

static bool sameMesh(const Mesh &a, const Mesh &b) {
    auto va = a.getVertices(), vb = b.getVertices();
    if (va.size() != vb.size() || a.numFaces() != b.numFaces() || a.numHalfedges() != b.numHalfedges()) return false;
    for (size_t i = 0; i < va.size(); i++)
        for (int d = 0; d < 3; d++)
            if (va[i][d] != vb[i][d]) return false;
    return a.getVertexIndices() == b.getVertexIndices();
}

// the same triangles over the same positions, however numbered
static bool sameTriangles(const Mesh &a, const std::vector<Vec3> &v, const std::vector<uint32_t> &ix) {
    typedef std::array<double, 3> P;
    auto all = [](const std::vector<Vec3> &v, const std::vector<uint32_t> &ix) {
        std::multiset<std::array<P, 3>> r;
        for (size_t k = 0; k + 2 < ix.size(); k += 3) {
            std::array<P, 3> t;
            for (int j = 0; j < 3; j++) {
                const Vec3 &p = v[ix[k + j]];
                t[j] = { p[0], p[1], p[2] };
            }
            std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
            r.insert(t);
        }
        return r;
    };
    return all(a.getVertices(), a.getVertexIndices()) == all(v, ix);
}

static void lists(Rng &g, int id) {
    const List l = makeList(g);
    const List later = [&] {
        Shape s = g.chance(1, 2) ? octa(2) : grid(3, 2, 2);
        List r;
        r.v = s.verts();
        r.ix = s.idx();
        return r;
    }();
    Call c;
    std::string file;
    std::shared_ptr<Mesh> m = std::make_shared<Mesh>();
    if (g.chance(1, 3)) *m = Mesh(tetra(3).verts(), tetra(3).idx());
    c.anew = [=] {
        Mesh fresh(later.v, later.ix);
        m->construct(later.v, later.ix);
        return sameMesh(*m, fresh);
    };
    switch (g.upto(4)) {
    case 0:
    case 1:
        listHead(c, "build", l);
        if (g.chance(1, 3)) c.run = [=] { *m = Mesh(l.v, l.ix); };
        else c.run = [=] { m->construct(l.v, l.ix); };
        break;
    case 2: {
        List q = l;
        q.ix.resize(q.ix.size() / 3 * 3);   // files list whole triangles
        const bool obj = g.chance(1, 2);
        file = dir + "/f" + std::to_string(id) + (obj ? ".obj" : ".ply");
        std::ofstream o(file, std::ios::binary);
        if (obj) {
            for (auto &p : q.v) o << "v " << p[0] << " " << p[1] << " " << p[2] << "\n";
            for (size_t k = 0; k < q.ix.size(); k += 3) {
                o << "f";
                for (int j = 0; j < 3; j++) {
                    uint32_t &i = q.ix[k + j];
                    i = std::min<uint32_t>(i, 2000000);
                    o << " " << (i + 1);
                }
                o << "\n";
            }
        } else {
            const bool bin = g.chance(1, 2);
            o << "ply\nformat " << (bin ? "binary_little_endian" : "ascii") << " 1.0\nelement vertex " << q.v.size()
              << "\nproperty float x\nproperty float y\nproperty float z\nelement face " << q.ix.size() / 3
              << "\nproperty list uchar int vertex_indices\nend_header\n";
            if (bin) {
                for (auto &p : q.v)
                    for (int d = 0; d < 3; d++) {
                        float f = (float)p[d];
                        o.write((const char *)&f, 4);
                    }
                for (size_t k = 0; k < q.ix.size(); k += 3) {
                    o.put(3);
                    o.write((const char *)&q.ix[k], 12);
                }
            } else {
                for (auto &p : q.v) o << p[0] << " " << p[1] << " " << p[2] << "\n";
                for (size_t k = 0; k < q.ix.size(); k += 3) o << "3 " << q.ix[k] << " " << q.ix[k + 1] << " " << q.ix[k + 2] << "\n";
            }
        }
        o.close();
        listHead(c, obj ? "obj" : "ply", q);
        c.run = [=] { m->load(file); };
        break;
    }
    default:
        listHead(c, "bvh", l);
        c.run = [=] { BVH b(l.v, l.ix); };
    }
    make(c);
    if (!file.empty()) unlink(file.c_str());
}

// --------------------------------------------------------------- numbers
static void numbers(Rng &g) {
    Shape s = randomShape(g);
    Mesh m(s.verts(), s.idx());
    const int which = g.upto(3);
    const int n = (int)(which == 0 ? m.numVertices() : which == 1 ? m.numHalfedges() : m.numFaces());
    static const int far[] = { 0, 1, 7, 1000000 };
    int k;
    switch (g.upto(4)) {
    case 0: k = g.upto(n); break;
    case 1: k = -1 - far[g.upto(4)]; break;
    case 2: k = n - 1; break;
    default: k = n + far[g.upto(4)];
    }
    static const char *names[] = { "vertex", "halfedge", "face" };
    Call c;
    c.head.str("op", "call").str("call", names[which]).i("k", k).i("n", n);
    int got = -1;
    c.run = [&] {
        if (which == 0) got = m.vertex(k)->index();
        if (which == 1) got = m.halfedge(k)->index();
        if (which == 2) got = m.face(k)->index();
    };
    c.right = [&] { return got == k; };
    make(c);
}

// -------------------------------------------------- filters and analyses
static Mesh *withHole(Rng &g, std::vector<int> &loops, bool round) {
    for (;;) {
        Shape s;
        if (round) s = sphere(g.range(6, 9), g.range(3, 5), 20);
        else {
            switch (g.upto(4)) {
            case 0: s = octa(4); break;
            case 1: s = torus(g.range(4, 7), g.range(4, 6), 30, 11); break;
            case 2: s = icosa(5, 8); break;
            default: s = sphere(g.range(5, 9), g.range(3, 5), 20);
            }
        }
        const int cut = g.chance(1, 3) ? 0 : g.range(1, 4);
        std::array<int, 3> last = { -1, -1, -1 };
        for (int j = 0; j < cut && s.t.size() > 4; j++) {
            size_t at = (size_t)g.upto((int)s.t.size());
            if (j > 0 && g.chance(3, 4)) {   // next to the one cut before
                for (size_t k = 0; k < s.t.size(); k++) {
                    int common = 0;
                    for (int a : s.t[k])
                        for (int b : last) common += a == b;
                    if (common == 2) at = k;
                }
            }
            last = s.t[at];
            s.t.erase(s.t.begin() + (long)at);
        }
        s.compact();
        Mesh *m = nullptr;
        const auto v = s.verts(0.1);
        const auto ix = s.idx();
        if (strcmp(runChild([&] { Mesh t(v, ix); }, 10), "ok") != 0) continue;
        m = new Mesh(v, ix);
        loops.clear();
        for (int k = 0; k < (int)m->numFaces(); k++)
            if (m->face(k)->isHole()) loops.push_back(m->face(k)->numCorners());
        return m;
    }
}

static void filters(Rng &g) {
    std::vector<int> loops;
    const int which = g.upto(6);
    std::unique_ptr<Mesh> m(withHole(g, loops, which >= 2));
    const int k = which >= 2 ? 0 : g.chance(1, 6) ? 0 : g.range(1, 2);
    static const char *names[] = { "gaussian", "bilateral", "curvature", "derivatives", "field", "flags" };
    Call c;
    c.head.str("op", "call").str("call", names[which]).i("k", k).raw("loops", jarr(loops));
    const auto before = m->getVertices();
    const auto tri = m->getVertexIndices();
    const bool smooth = g.chance(1, 2);
    c.run = [&] {
        switch (which) {
        case 0: denoiseNormalGaussian(*m, 0.3, k); break;
        case 1: denoiseNormalBilateral(*m, 0.3, 0.3, k); break;
        case 2: getPrincipalCurvatures(*m, smooth); break;
        case 3: getPrincipalCurvaturesWithDerivatives(*m, smooth); break;
        case 4: getFeatureLineField(*m, smooth); break;
        default: getFeatureLineFieldWithFlags(*m, smooth);
        }
    };
    c.kept = [&] {
        const auto after = m->getVertices();
        for (size_t i = 0; i < before.size(); i++)
            for (int d = 0; d < 3; d++)
                if (before[i][d] != after[i][d]) return false;
        return m->getVertexIndices() == tri;
    };
    make(c);
}

static void targets(Rng &g) {
    Shape s = sphere(g.range(5, 8), g.range(3, 5), 20);
    Mesh m(s.verts(0.1), s.idx());
    static const int low[] = { 0, -1, -2, -7, -1000, -2000000000 };
    const int k = g.chance(1, 2) ? low[g.upto(6)] : g.range(4, (int)m.numFaces() + 3);
    Call c;
    c.head.str("op", "call").str("call", "simplify").i("k", k);
    const auto before = m.getVertices();
    c.run = [&] { simplifyQEM(m, k, g.range(1, 3)); };
    c.kept = [&] {
        const auto after = m.getVertices();
        if (after.size() != before.size()) return false;
        for (size_t i = 0; i < before.size(); i++)
            for (int d = 0; d < 3; d++)
                if (before[i][d] != after[i][d]) return false;
        return true;
    };
    make(c);
}

static void modes(Rng &g) {
    Shape s = sphere(g.range(5, 7), g.range(3, 4), 20);
    Mesh m(s.verts(0.1), s.idx());
    const int n = (int)m.numVertices();
    const int k = g.chance(3, 4) ? n + g.range(0, 3) * g.range(0, 50) : g.range(2, n - 1);
    Call c;
    c.head.str("op", "call").str("call", "modes").i("k", k).i("n", n);
    c.run = [&] { getHeatKernelSignatures(getMeshLaplacian(m, MeshLaplace::Cotangent), k, 5); };
    make(c);
}

static void kinds(Rng &g) {
    Shape s = sphere(g.range(5, 7), g.range(3, 4), 20);
    Mesh m(s.verts(0.1), s.idx());
    static const MeshLaplace known[] = { MeshLaplace::Adjacent, MeshLaplace::Cotangent, MeshLaplace::Belkin08 };
    static const int others[] = { 17, 1000, -1, -17, 99 };
    const bool good = g.chance(1, 2);
    const int k = good ? g.upto(3) : others[g.upto(5)];
    Call c;
    c.head.str("op", "call").str("call", "laplacian").i("k", k);
    c.run = [&] { getMeshLaplacian(m, good ? known[k] : (MeshLaplace)k); };
    make(c);
}

static void parts(Rng &g) {
    Shape s = randomShape(g);
    Mesh m(s.verts(), s.idx());
    Face *f = m.face(g.upto((int)m.numFaces()));
    for (int k = 0; k < (int)m.numFaces(); k++)
        if (m.face(k)->isHole() && g.chance(1, 3)) f = m.face(k);
    Vertex *v = m.vertex(g.upto((int)m.numVertices()));
    if (g.chance(1, 2)) v = f->v_begin().ptr();
    bool own = false;
    for (auto it = f->v_begin(); it != f->v_end(); ++it) own |= it.ptr() == v;
    Call c;
    if (g.chance(1, 2)) {
        c.head.str("op", "call").str("call", "triangle").i("k", f->numCorners());
        c.run = [&] { f->toTriangle(); };
    } else {
        c.head.str("op", "call").str("call", "share").i("k", f->numCorners()).raw("own", own ? "true" : "false");
        c.run = [&] { v->volonoiArea(f); };
    }
    make(c);
}

static void nearest(Rng &g) {
    Shape s = tetra(3);
    Mesh full(s.verts(), s.idx());
    Mesh none;
    const bool empty = g.chance(2, 3);
    const Mesh &dst = empty ? none : full;
    const Vec3 q(g.unit(), g.unit(), g.unit());
    Call c;
    c.head.str("op", "call").str("call", "nearest").i("n", empty ? 0 : 4);
    switch (g.upto(5)) {
    case 0: c.run = [&] { BVH b(dst); b.closestPoint(q); }; break;
    case 1: c.run = [&] { BVH b(dst); b.distance(q); }; break;
    case 2: c.run = [&] {
        BVH b;
        if (!empty) b.construct(s.verts(), s.idx());
        b.closestPoint(q);
    }; break;
    case 3: c.run = [&] { getPerVertexShortestDistances(full, dst); }; break;
    default: {
        const bool first = g.chance(1, 2);
        c.run = [&, first] { first ? getHausdorffDistance(dst, full) : getHausdorffDistance(full, dst); };
    }
    }
    make(c);
}

static void opens(Rng &g, int id) {
    static const char *hows[] = { "missing", "extension", "layout", "good" };
    const std::string how = hows[g.upto(4)];
    Shape s = g.chance(1, 2) ? octa(3) : tetra(2);
    const auto v = s.verts(0.5);
    const bool obj = how != "layout" && g.chance(1, 2);
    std::string file = dir + "/o" + std::to_string(id) + (how == "extension" ? (g.chance(1, 2) ? ".stl" : "") : obj ? ".obj" : ".ply");
    const bool wideV = g.chance(1, 2), shortI = !wideV || g.chance(1, 4);
    if (how == "good" || how == "extension") {
        std::string w = how == "good" ? file : dir + "/o" + std::to_string(id) + ".w.obj";
        Mesh(v, s.idx()).save(w);
        if (w != file) rename(w.c_str(), file.c_str());
    } else if (how == "layout") {   // coordinates or indices of another width
        std::ofstream o(file, std::ios::binary);
        const char *ct = wideV ? "double" : "float";
        const char *it = shortI ? (g.chance(1, 2) ? "ushort" : "uchar") : "int";
        o << "ply\nformat ascii 1.0\nelement vertex " << v.size() << "\nproperty " << ct << " x\nproperty " << ct << " y\nproperty " << ct
          << " z\nelement face " << s.t.size() << "\nproperty list uchar " << it << " vertex_indices\nend_header\n";
        for (auto &p : v) o << p[0] << " " << p[1] << " " << p[2] << "\n";
        for (auto &t : s.t) o << "3 " << t[0] << " " << t[1] << " " << t[2] << "\n";
    }
    Mesh m;
    Call c;
    c.head.str("op", "call").str("call", "open").str("how", how);
    c.run = [&] { m.load(file); };
    c.right = [&] { return sameTriangles(m, v, s.idx()); };
    c.anew = [&] {
        Mesh f(v, s.idx());
        m.construct(v, s.idx());
        return sameMesh(m, f);
    };
    make(c);
    unlink(file.c_str());
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    dir = argv[4];
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        Rng g(seed * 1000003ull + (uint64_t)i);
        const int id = (int)(seed % 100000) * 100000 + i;
        switch (i % 12) {
        case 0:
        case 1:
        case 2: lists(g, id); break;
        case 3: numbers(g); break;
        case 4:
        case 5: filters(g); break;
        case 6: targets(g); break;
        case 7: g.chance(1, 2) ? modes(g) : kinds(g); break;
        case 8:
        case 9: parts(g); break;
        case 10: nearest(g); break;
        default: opens(g, id);
        }
    }
    out.line(J().str("op", "end").str("res", "ok").done());
    return 0;
}
