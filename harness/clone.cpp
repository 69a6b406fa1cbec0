// Several meshes, cloned from one another, edited and destroyed.
//   clone OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"
#include "remesh/remesh.h"

static Log out;
static std::map<std::string, int> tok;
static int token(const std::string &s) {
    return tok.emplace(s, (int)tok.size()).first->second;
}
static std::string bits(const Vec3 &p) {
    std::string s;
    for (int k = 0; k < 3; k++) {
        double x = p[k];
        if (x == 0) x = 0;  // one zero
        s.append((const char *)&x, sizeof x);
    }
    return s;
}

struct Held {
    int h;
    std::unique_ptr<Mesh> m;
    Ids ids;
};

static int look(Held &x) {
    Raw r = Raw::of(*x.m);
    x.ids.refresh(*x.m);
    std::string s = dumpRaw(*x.m, r, x.ids, 1);
    for (int i = 0; i < (int)x.m->numVertices(); i++) s += bits(x.m->vertex(i)->pos());
    return token(s);
}

static std::string seen(std::vector<Held> &all) {
    std::vector<int> h, s;
    for (auto &x : all) {
        h.push_back(x.h);
        s.push_back(look(x));
    }
    return "\"h\":" + jarr(h) + ",\"seen\":" + jarr(s);
}

static std::string tris(const Mesh &m) {
    std::vector<std::vector<int>> r;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (f->isHole()) continue;
        std::vector<int> t;
        for (auto v = f->v_begin(); v != f->v_end(); ++v) t.push_back(token(bits(v->pos())));
        if (t.size() == 3) r.push_back(t);
        else r.push_back({ -1, -1, (int)t.size() });
    }
    return jarr2(r);
}
static std::string places(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++) r.push_back(token(bits(m.vertex(i)->pos())));
    return jarr(r);
}

static const char *act(Mesh &m, Rng &g) {
    Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
    Vertex *v = m.vertex(g.upto((int)m.numVertices()));
    switch (g.upto(12)) {
    case 0: m.flipHE(h); return "flip";
    case 1: m.splitHE(h); return "split";
    case 2: if (m.numFaces() > 8) m.collapseHE(h); return "collapse";
    case 3: v->setPos(v->pos() + Vec3(g.unit(), g.unit(), g.unit())); return "move";
    case 4: v->lock(); return "lock";
    case 5: v->unlock(); return "unlock";
    case 6: m.fillHoles(); return "fill";
    case 7: tinymesh::smoothLaplacian(m, 0.5, g.chance(1, 2), 1); return "smooth";
    case 8: if (m.numFaces() > 8) tinymesh::simplifyQEM(m, (int)m.numFaces() - 2); return "simplify";
    case 9: if (m.numVertices() < 60) tinymesh::remeshTriangular(m, 0.8, 1.333, 0.0, 1); return "remesh";
    case 10: v->setPos(Vec3(1.0 / 3 + g.unit() * 1e-9, v->pos()[1], v->pos()[2])); return "move";
    default: m.getVertexIndices(); return "read";
    }
}

static void one(uint64_t seed) {
    Rng g(seed);
    Shape s = randomShape(g);
    std::vector<Held> all;
    int next = 1;
    const double unit = g.chance(1, 3) ? 1.0 / 7 : 1.0;
    all.push_back({ next++, std::make_unique<Mesh>(s.verts(unit), s.idx()), {} });
    all[0].ids.reset(*all[0].m);
    out.line("{\"op\":\"begin\"," + seen(all) + "}");
    for (int k = 0; k < 14; k++) {
        Held &x = all[g.upto((int)all.size())];
        int c = g.upto(6);
        if (all.size() < 2) c = g.chance(1, 2) ? 0 : 5;
        if (c == 0 && all.size() < 4) {
            calling("C24");
            out.line(J().str("op", "cloning").raw("tm", tris(*x.m)).raw("pm", places(*x.m)).done());
            auto n = std::make_unique<Mesh>(x.m->clone());
            std::string rest = J().i("m", x.h).i("n", next).raw("tm", tris(*x.m)).raw("tn", tris(*n)).raw("pm", places(*x.m)).raw("pn", places(*n)).done();
            all.push_back({ next++, std::move(n), {} });
            all.back().ids.reset(*all.back().m);
            out.line("{\"op\":\"clone\"," + seen(all) + "," + rest.substr(1));
        } else if (c == 1) {
            calling("C24");
            const int h = x.h;
            const size_t at = &x - all.data();
            all.erase(all.begin() + at);
            out.line("{\"op\":\"drop\"," + seen(all) + ",\"m\":" + std::to_string(h) + "}");
        } else {
            calling("call");
            const char *name = act(*x.m, g);
            calling("look");
            if (!Raw::of(*x.m).sane) return;
            calling("C24");
            out.line("{\"op\":\"call\"," + seen(all) + ",\"m\":" + std::to_string(x.h) + ",\"call\":\"" + name + "\"}");
        }
    }
    calling("C24");
    all.clear();
    calling("");
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { one(hs); }, 60);
        out.line(J().str("op", "end").str("res", res).str("blame", currentCall()).i("hist", i).done());
    }
    return 0;
}
