// Replays cases enumerated by GenOps.tla: build the surface, do one edit,
// compare answer and triangles with what the specification demands.
//   replayops CASES OUT
// CASES: "P n x y z ..." positions, "S n a b c ..." surface,
//        "K op a b ret nr a b c ... na a b c ..." case
// OUT: one line per mismatch and a final summary line.
#include "common.h"
#include <fstream>

using Tri = std::array<int, 3>;
static Tri canon(int a, int b, int c) {
    if (a < b && a < c) return { a, b, c };
    if (b < a && b < c) return { b, c, a };
    return { c, a, b };
}

static Log out;
static std::vector<Vec3> pos;

struct Case {
    std::string op, line;
    int a, b, ret;
    std::set<Tri> rem, add;
};

static std::set<Tri> triangles(const Mesh &m, const Ids &ids, const std::map<const Vertex *, int> &name, bool *ok) {
    std::set<Tri> r;
    Raw raw = Raw::of(m);
    *ok = raw.sane;
    if (!raw.sane) return r;
    for (size_t f = 0; f < raw.fh.size(); f++) {
        if (raw.fo[f]) continue;
        int h = raw.fh[f] - 1, g = raw.hn[h] - 1, k = raw.hn[g] - 1;
        if (raw.hn[k] - 1 != h) *ok = false;
        int v[3] = { raw.hs[h] - 1, raw.hs[g] - 1, raw.hs[k] - 1 };
        int n[3];
        for (int q = 0; q < 3; q++) n[q] = name.at(m.vertex(v[q]));
        Tri t = canon(n[0], n[1], n[2]);
        if (!r.insert(t).second) *ok = false;
    }
    return r;
}

static long long done = 0, either = 0;

static void replay(const std::vector<Tri> &tri, const Case &c, int fresh) {
    std::vector<Vec3> pts;
    std::vector<uint32_t> idx;
    std::map<int, uint32_t> used;
    for (auto &t : tri)
        for (int v : t) {
            if (!used.count(v)) {
                used[v] = (uint32_t)pts.size();
                pts.push_back(pos[v]);
            }
            idx.push_back(used[v]);
        }
    Mesh m(pts, idx);
    std::map<const Vertex *, int> name;
    for (auto &kv : used) name[m.vertex((int)kv.second)] = kv.first;
    Halfedge *he = nullptr;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge(i);
        if (name.at(h->src()) == c.a && name.at(h->dst()) == c.b) he = h;
    }
    std::string bad;
    if (!he) {
        bad = "edge not found";
    } else {
        calling(c.line.c_str());
        bool r = c.op == "split" ? m.splitHE(he) : c.op == "flip" ? m.flipHE(he) : m.collapseHE(he);
        calling("");
        Ids ids;
        std::map<const Vertex *, int> now;
        int unknown = 0;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            const Vertex *v = m.vertex(i);
            if (name.count(v)) now[v] = name[v];
            else {
                now[v] = fresh;
                unknown++;
            }
        }
        std::set<Tri> want(tri.begin(), tri.end());
        int expect = c.ret;
        if (expect == 2) {
            expect = r ? 1 : 0;
            either++;
        }
        if (expect == 1) {
            for (auto &t : c.rem) want.erase(t);
            for (auto &t : c.add) want.insert(t);
        }
        bool ok = true;
        std::set<Tri> got = triangles(m, ids, now, &ok);
        if ((int)r != expect) bad = "answer " + std::to_string((int)r);
        else if (!ok) bad = "broken structure";
        else if (got != want) bad = "other triangles";
        else if (unknown != (c.op == "split" && expect == 1 ? 1 : 0)) bad = "vertices";
        for (auto &kv : now) {
            Vec3 p = kv.second == fresh ? 0.5 * (pos[c.a] + pos[c.b]) : pos[kv.second];
            if (!(kv.first->pos() == p)) bad = "position";
        }
    }
    done++;
    if (!bad.empty()) {
        std::vector<Tri> t(tri);
        out.line("MISMATCH " + bad + " | case " + c.line + " | surface " + jarr2(t));
    }
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    if (!in || !out.open(argv[2])) return 2;
    const char *res = runChild(
        [&] {
            std::string line;
            std::vector<Tri> tri;
            while (std::getline(in, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                if (k == "P") {
                    int n;
                    is >> n;
                    pos.clear();
                    for (int i = 0; i < n; i++) {
                        double x, y, z;
                        is >> x >> y >> z;
                        pos.push_back(Vec3(x, y, z));
                    }
                } else if (k == "S") {
                    int n;
                    is >> n;
                    tri.resize(n);
                    for (auto &t : tri) {
                        is >> t[0] >> t[1] >> t[2];
                        t = canon(t[0], t[1], t[2]);
                    }
                } else if (k == "K") {
                    Case c;
                    c.line = line;
                    is >> c.op >> c.a >> c.b >> c.ret;
                    for (auto *s : { &c.rem, &c.add }) {
                        int n;
                        is >> n;
                        for (int i = 0; i < n; i++) {
                            int a, b, d;
                            is >> a >> b >> d;
                            s->insert(canon(a, b, d));
                        }
                    }
                    replay(tri, c, (int)pos.size());
                }
            }
            out.line("DONE " + std::to_string(done) + " " + std::to_string(either));
        },
        800);
    if (std::string(res) != "ok") {
        if (currentCall()[0]) out.line(std::string("MISMATCH ") + res + " | case " + currentCall());
        else out.line(std::string("BROKEN ") + res);
    }
    return 0;
}
