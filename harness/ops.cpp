// Random edit histories on real meshes, logged call by call.
//   ops OUT SEED HISTORIES LENGTH MODE
// MODE: edits     splits, flips, collapses, face collapses, locks
//       fills     the same and hole fillings
//       holes     like fills, with many more fillings, on shapes with holes
//       level2    like fills, with the iterators in every dump
#include "common.h"
#include "restore/restore.h"

static Log out;

struct Session {
    Mesh mesh;
    Ids ids;
    int lvl = 1;

    std::string state(bool *sane) {
        Raw r = Raw::of(mesh);
        *sane = r.sane;
        return dumpRaw(mesh, r, ids, lvl);
    }

    // is the loop of this hole free of chords (edges between non-neighbours)?
    static bool chordFree(Face *f) {
        std::vector<Vertex *> l;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) l.push_back(it.ptr());
        int n = (int)l.size();
        for (int i = 0; i < n; i++)
            for (auto it = l[i]->v_begin(); it != l[i]->v_end(); ++it)
                for (int j = 0; j < n; j++)
                    if (l[j] == it.ptr() && (j - i + n) % n != 1 && (i - j + n) % n != 1) return false;
        return true;
    }
};

static std::string ipts(const Shape &s) {
    return jarr2(s.p);
}

static void history(uint64_t seed, int length, const std::string &mode) {
    Rng g(seed);
    Session S;
    S.lvl = mode == "level2" ? 2 : 1;
    const bool fills = mode != "edits";
    bool sane = true;

    const bool holes = mode == "holes";
    static const int kinds[] = { 3, 5, 6, 9, 10, 11, 12, 14, 15, 10, 12, 5 };
    Shape s = randomShape(g, holes ? kinds[g.upto(12)] : -1);
    calling("construct");
    S.mesh.construct(s.verts(), s.idx());
    S.ids.reset(S.mesh);
    calling("");
    {
        std::string st = S.state(&sane);
        out.line(J().str("op", "construct").raw("p", dumpPos(S.mesh)).raw("m", st).done());
    }
    if (!sane) return;

    for (int step = 0; step < length; step++) {
        const int nh = (int)S.mesh.numHalfedges(), nv = (int)S.mesh.numVertices(), nf = (int)S.mesh.numFaces();
        int k = g.upto(holes ? 125 : 100);
        J j;
        int wsplit = 30;
        if (nv > 40) wsplit = 5;
        if (nv < 9) wsplit = 45;
        if (k < wsplit) {
            Halfedge *he = nullptr;
            for (int t = 0; t < 30; t++) {
                Halfedge *c = S.mesh.halfedge(g.upto(nh));
                Vec3 a = c->src()->pos(), b = c->dst()->pos();
                bool even = true;
                for (int d = 0; d < 3; d++)
                    if (((long long)a[d] + (long long)b[d]) % 2) even = false;
                bool same = false;
                Vec3 mid = 0.5 * (a + b);
                for (int i = 0; i < nv; i++)
                    if (S.mesh.vertex(i)->pos() == mid) same = true;
                if (even && !same) {
                    he = c;
                    break;
                }
            }
            if (!he) continue;
            calling("split");
            int a = S.ids.of(he->src()), b = S.ids.of(he->dst());
            bool ret = S.mesh.splitHE(he);
            S.ids.refresh(S.mesh);
            j.str("op", "split").i("a", a).i("b", b).i("ret", ret).i("n", S.ids.fresh).i("nn", S.ids.nfresh);
        } else if (k < 55) {
            Halfedge *he = S.mesh.halfedge(g.upto(nh));
            calling("flip");
            int a = S.ids.of(he->src()), b = S.ids.of(he->dst());
            bool ret = S.mesh.flipHE(he);
            S.ids.refresh(S.mesh);
            j.str("op", "flip").i("a", a).i("b", b).i("ret", ret).i("n", S.ids.fresh).i("nn", S.ids.nfresh);
        } else if (k < 85) {
            Halfedge *he = S.mesh.halfedge(g.upto(nh));
            calling("collapse");
            int a = S.ids.of(he->src()), b = S.ids.of(he->dst());
            bool ret = S.mesh.collapseHE(he);
            S.ids.refresh(S.mesh);
            j.str("op", "collapse").i("a", a).i("b", b).i("ret", ret).i("n", S.ids.fresh).i("nn", S.ids.nfresh);
        } else if (k < 92) {
            Face *f = S.mesh.face(g.upto(nf));
            if (f->isHole()) continue;
            calling("collapseFace");
            std::vector<int> c;
            for (auto it = f->v_begin(); it != f->v_end(); ++it) c.push_back(S.ids.of(it.ptr()));
            bool ret = S.mesh.collapseFace(f);
            S.ids.refresh(S.mesh);
            j.str("op", "collapseFace").i("a", c[0]).i("b", c[1]).i("c", c[2]).i("ret", ret);
            j.i("n", S.ids.fresh).i("nn", S.ids.nfresh);
        } else if (k < 97 || !fills || nv > 90) {
            Vertex *v = S.mesh.vertex(g.upto(nv));
            bool l = g.chance(1, 2);
            if (l) v->lock();
            else v->unlock();
            j.str("op", l ? "lock" : "unlock").i("a", S.ids.of(v));
        } else {
            std::vector<Face *> open;
            bool all = true;
            for (int i = 0; i < nf; i++) {
                Face *f = S.mesh.face(i);
                if (!f->isHole()) continue;
                if (Session::chordFree(f)) open.push_back(f);
                else all = false;
            }
            if (open.empty()) continue;
            bool one = !all || g.chance(2, 3);
            calling("fill");
            std::vector<int> loop;
            if (one) {
                Face *f = open[g.upto((int)open.size())];
                for (auto it = f->v_begin(); it != f->v_end(); ++it) loop.push_back(S.ids.of(it.ptr()));
                static const double bounds[] = { M_PI, 0.2, 0.0, 1.0e-6, 3.0 };
                tinymesh::holeFillMinDihedral(S.mesh, f, bounds[holes ? g.upto(5) : g.upto(2)]);
            } else {
                S.mesh.fillHoles();
            }
            S.ids.refresh(S.mesh);
            j.str("op", one ? "fill" : "fillall").raw("loop", jarr(loop)).i("n", S.ids.fresh).i("nn", S.ids.nfresh);
        }
        calling("");
        std::string st = S.state(&sane);
        j.raw("p", dumpPos(S.mesh)).raw("m", st);
        out.line(j.done());
        if (!sane) return;
    }
}

int main(int argc, char **argv) {
    if (argc < 6) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]), len = atoi(argv[4]);
    const std::string mode = argv[5];
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { history(hs, len, mode); }, 120);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
