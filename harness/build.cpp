// Builds of real meshes, logged with input and outcome.
//   build OUT SEED COUNT build       generated inputs, manifold and not
//   build OUT SEED COUNT reuse DIR   histories of builds, loads and edits on one object
//   build OUT CASES cases            replay of specified outcomes
#include "common.h"
#include "restore/restore.h"
#include <fstream>

#include <csetjmp>

static Log out;

// Run f; false if the library reported an error (it ends the process then,
// except in the Python module, where it throws).
static jmp_buf back;
static bool armed = false;
static void onReport() {
    if (armed && !std::current_exception()) {
        armed = false;
        longjmp(back, 1);
    }
    onTerminate();
}
static bool attempt(const std::function<void()> &f) {
    std::set_terminate(onReport);
    if (setjmp(back)) return false;
    armed = true;
    try {
        f();
    } catch (const std::logic_error &) {
        throw;
    } catch (const std::runtime_error &) {
        armed = false;
        return false;
    }
    armed = false;
    return true;
}

struct Input {
    std::vector<Vec3> v;
    std::vector<uint32_t> ix;
};

static uint64_t bits(double x) {
    uint64_t b;
    memcpy(&b, &x, 8);
    return b;
}
struct Tokens {
    std::map<std::array<double, 3>, int> eq;
    std::map<std::array<uint64_t, 3>, int> bt;
    int tok(const Vec3 &p) {
        std::array<double, 3> a = { p[0] == 0 ? 0.0 : p[0], p[1] == 0 ? 0.0 : p[1], p[2] == 0 ? 0.0 : p[2] };
        return eq.emplace(a, (int)eq.size()).first->second;
    }
    int bit(const Vec3 &p) {
        return bt.emplace(std::array<uint64_t, 3>{ bits(p[0]), bits(p[1]), bits(p[2]) }, (int)bt.size()).first->second;
    }
};

// ------------------------------------------------------------- inputs
static double scalar(Rng &g) {
    switch (g.upto(8)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return (g.unit() - 0.5) * 1e-300;
    case 3: return (g.unit() - 0.5) * 1e30;
    case 4: return g.range(-3, 3);
    default: return g.unit() * 2 - 1;
    }
}

static Input makeInput(Rng &g) {
    Shape s;
    const int what = g.upto(10);
    if (what < 6) {
        s = randomShape(g);
        // other shapes: fans, single triangles, big loops
        int k = g.upto(8);
        if (k == 0) { s = Shape(); s.p = { { 0, 0, 0 }, { 8, 0, 0 }, { 0, 8, 0 } }; s.t = { { 0, 1, 2 } }; }
        if (k == 1) s = disk(g.range(3, 20), 1, 28);
        if (k == 2) { s = randomShape(g); Shape o = randomShape(g, g.upto(3)); s.add(o, 100, 0, 0); }
        if (g.chance(1, 2)) shuffleLabels(s, g);
    } else {
        // triangle soup on few vertices
        int nv = g.range(3, 7), nt = g.range(1, 9);
        for (int i = 0; i < nv; i++) s.p.push_back({ i, i * i % 7, i % 3 });
        for (int i = 0; i < nt; i++) {
            std::array<int, 3> t = { g.upto(nv), g.upto(nv), g.upto(nv) };
            s.t.push_back(t);
        }
    }
    // damage
    int dmg = g.upto(12);
    for (int rep = 0; rep < g.range(1, 3) && !s.t.empty(); rep++) {
        switch (dmg) {
        case 0: std::swap(s.t[g.upto((int)s.t.size())][0], s.t[g.upto((int)s.t.size())][1]); break;
        case 1: {
            auto &t = s.t[g.upto((int)s.t.size())];
            std::swap(t[0], t[1]);
            break;
        }
        case 2: {  // identify two vertices
            int a = g.upto((int)s.p.size()), b = g.upto((int)s.p.size());
            s.p[a] = s.p[b];
            break;
        }
        case 3: s.t.erase(s.t.begin() + g.upto((int)s.t.size())); break;
        case 4: {  // a triangle on random corners
            std::array<int, 3> t = { g.upto((int)s.p.size()), g.upto((int)s.p.size()), g.upto((int)s.p.size()) };
            s.t.insert(s.t.begin() + g.upto((int)s.t.size() + 1), t);
            break;
        }
        case 5: {  // a corner of its own in a degenerate triangle
            s.p.push_back({ 200 + rep, 0, 0 });
            int n = (int)s.p.size() - 1;
            s.t.insert(s.t.begin() + g.upto((int)s.t.size() + 1), { n, n, g.upto(n) });
            break;
        }
        default: break;
        }
    }
    // harmless additions: repeated and degenerate triangles
    if (g.chance(1, 2) && !s.t.empty()) {
        int n = g.range(1, 4);
        for (int k = 0; k < n; k++) {
            std::array<int, 3> t = s.t[g.upto((int)s.t.size())];
            if (g.chance(2, 3)) {
                int a = g.upto(3);
                t[a] = t[(a + 1) % 3];
                if (g.chance(1, 4)) t[0] = t[1] = t[2];
            } else {
                std::rotate(t.begin(), t.begin() + g.upto(3), t.end());
            }
            int at = g.chance(1, 2) ? (int)s.t.size() : g.upto((int)s.t.size() + 1);
            s.t.insert(s.t.begin() + at, t);
        }
    }
    // positions: arbitrary doubles, one per distinct integer position
    std::map<std::array<int, 3>, Vec3> at;
    std::set<std::array<double, 3>> used;
    const bool ints = g.chance(1, 4);
    std::vector<Vec3> pos;
    for (auto &q : s.p) {
        auto it = at.find(q);
        if (it == at.end()) {
            std::array<double, 3> a;
            do {
                for (int d = 0; d < 3; d++) a[d] = ints ? (double)q[d] : scalar(g);
            } while (!ints && used.count({ a[0] + 0.0, a[1] + 0.0, a[2] + 0.0 }));
            used.insert({ a[0] + 0.0, a[1] + 0.0, a[2] + 0.0 });
            it = at.emplace(q, Vec3(a[0], a[1], a[2])).first;
        }
        pos.push_back(it->second);
    }
    // entries: each vertex may be listed several times (zeros with either sign)
    Input in;
    const bool multi = g.chance(1, 2);
    if (!multi) {
        in.v = pos;
        in.ix = s.idx();
    } else {
        std::vector<std::vector<int>> copies(pos.size());
        auto copy = [&](int v) {
            Vec3 p = pos[v];
            double c[3];
            for (int d = 0; d < 3; d++) c[d] = p[d] == 0.0 && g.chance(1, 3) ? -p[d] : p[d];
            copies[v].push_back((int)in.v.size());
            in.v.push_back(Vec3(c[0], c[1], c[2]));
        };
        for (size_t v = 0; v < pos.size(); v++) copy((int)v);
        const bool soup = g.chance(1, 3);
        for (auto &t : s.t)
            for (int k = 0; k < 3; k++) {
                if (soup || g.chance(1, 6)) copy(t[k]);
                in.ix.push_back((uint32_t)copies[t[k]][soup ? copies[t[k]].size() - 1 : g.upto((int)copies[t[k]].size())]);
            }
    }
    return in;
}

static std::string describe(const Input &in, Tokens &tk) {
    std::vector<int> pt, bt, ix;
    for (auto &p : in.v) {
        pt.push_back(tk.tok(p));
        bt.push_back(tk.bit(p));
    }
    for (auto i : in.ix) ix.push_back((int)i + 1);
    return "\"pt\":" + jarr(pt) + ",\"bt\":" + jarr(bt) + ",\"ix\":" + jarr(ix);
}

static Ids indexIds(const Mesh &m) {
    Ids d;
    d.reset(m);
    return d;
}

static std::string outcome(const Mesh &m, Tokens &tk) {
    std::vector<int> ob;
    for (auto &p : m.getVertices()) ob.push_back(tk.bit(p));
    Raw r = Raw::of(m);
    std::string s = "\"m\":" + dumpRaw(m, r, indexIds(m), 1) + ",\"ob\":" + jarr(ob);
    s += ",\"gi\":" + (r.sane ? jarr(m.getVertexIndices()) : std::string("[]"));
    return s;
}

static void runBuilds(uint64_t seed, int n) {
    int hangs = 0;
    for (int i = 0; i < n; i++) {
        Rng g(seed * 1000003ull + (uint64_t)i);
        Input in = makeInput(g);
        Tokens tk;
        std::string head = "{\"op\":\"build\"," + describe(in, tk);
        const char *res = runChild([&] {
            Mesh m(in.v, in.ix);
            std::string o = outcome(m, tk);
            out.line(head + ",\"res\":\"ok\"," + o + "}");
        }, 10);
        if (!strcmp(res, "hang") && ++hangs > 3) n = 0;
        if (strcmp(res, "ok") != 0) out.line(head + ",\"res\":\"" + res + "\"}");
    }
}

// ---------------------------------------------------------------- reuse
static std::string posHash(const Mesh &m) {
    std::vector<long long> h;
    for (auto &p : m.getVertices())
        for (int d = 0; d < 3; d++) h.push_back((long long)((bits(p[d]) * 0x9E3779B97F4A7C15ull) >> 34));
    return jarr(h);
}

static void edits(Mesh &m, uint64_t seed, int n) {
    Rng g(seed);
    for (int i = 0; i < n; i++) {
        if (m.numHalfedges() == 0) return;
        Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
        switch (g.upto(6)) {
        case 0: m.splitHE(h); break;
        case 1: m.flipHE(h); break;
        case 2: m.collapseHE(h); break;
        case 3: m.vertex(g.upto((int)m.numVertices()))->lock(); break;
        case 4: {
            Vec3 p(g.unit(), g.unit(), g.unit());
            m.vertex(g.upto((int)m.numVertices()))->setPos(p);
            break;
        }
        default:
            if (g.chance(1, 4)) {
                for (int k = 0; k < (int)m.numFaces(); k++)
                    if (m.face(k)->isHole() && m.face(k)->numCorners() == 3) {
                        tinymesh::holeFillMinDihedral(m, m.face(k), M_PI);
                        break;
                    }
            }
        }
    }
}

static void reuse(uint64_t seed, const std::string &dir) {
    Rng g(seed);
    Mesh &obj = *new Mesh;
    const int n = g.range(2, 6);
    std::vector<std::string> files;
    for (int step = 0; step < n; step++) {
        Input in = makeInput(g);
        if (g.chance(1, 12)) in = Input();
        int how = g.upto(4);
        Mesh &fresh = *new Mesh;
        bool a, b;
        if (how < 2) {
            calling("construct");
            a = attempt([&] { obj.construct(in.v, in.ix); });
            b = attempt([&] { fresh.construct(in.v, in.ix); });
        } else {
            calling("load");
            // a file of some surface, or one that does not exist
            Shape s = randomShape(g);
            std::string f = dir + "/m" + std::to_string(seed) + "_" + std::to_string(step) + (how == 2 ? ".obj" : ".ply");
            if (g.chance(7, 8)) {
                Mesh w(s.verts(), s.idx());
                w.save(f);
                files.push_back(f);
            }
            a = attempt([&] { obj.load(f); });
            b = attempt([&] { fresh.load(f); });
        }
        calling("compare");
        auto show = [&](const char *pre, bool ok, Mesh &m) {
            std::string p = std::string(",\"") + pre;
            if (!ok) return p + "res\":\"error\"" + p + "m\":{\"none\":1}" + p + "ps\":[]" + p + "gi\":[]";
            Raw r = Raw::of(m);
            std::string s = p + "res\":\"ok\"" + p + "m\":" + dumpRaw(m, r, indexIds(m), r.sane ? 2 : 0);
            s += p + "ps\":" + posHash(m) + p + "gi\":" + (r.sane ? jarr(m.getVertexIndices()) : std::string("[]"));
            return s;
        };
        out.line("{\"op\":\"reuse\",\"step\":" + std::to_string(step) + show("", a, obj) + show("f", b, fresh) + "}");
        if (a && b) {
            calling("edits");
            uint64_t es = g.g();
            int k = g.range(0, 20);
            edits(obj, es, k);
            edits(fresh, es, k);
            out.line("{\"op\":\"reuse\",\"step\":" + std::to_string(step) + ",\"after\":" + std::to_string(k) +
                     show("", true, obj) + show("f", true, fresh) + "}");
        }
    }
    for (auto &f : files) unlink(f.c_str());
}

// ---------------------------------------------------------------- cases
// lines: corners... | n | fail | ntri t.. nh (len loop..)..  [further results]
static std::array<int, 3> canon(int a, int b, int c) {
    if (a < b && a < c) return { a, b, c };
    if (b < c && b < a) return { b, c, a };
    return { c, a, b };
}

static int cases(const char *path, const char *res) {
    std::ifstream in(path);
    std::vector<std::string> lines;
    std::string line;
    while (std::getline(in, line)) lines.push_back(line);
    std::ofstream o(res);
    size_t at = 0;
    // shared progress so that a dead child names its case
    volatile size_t *pos = (volatile size_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string tmp = std::string(res) + ".part";
    size_t done = 0;
    int deaths = 0;
    while (at < lines.size()) {
        pos[0] = at;
        pos[1] = 0;
        const char *r = runChild([&] {
            std::ofstream part(tmp);
            for (size_t k = at; k < lines.size(); k++) {
                pos[0] = k;
                std::istringstream ss(lines[k]);
                int nc, n, fail, nres;
                ss >> nc;
                std::vector<int> c(nc);
                for (auto &x : c) ss >> x;
                ss >> n >> fail >> nres;
                using Tri = std::array<int, 3>;
                std::vector<std::pair<std::set<Tri>, std::multiset<std::vector<int>>>> want(nres);
                for (auto &w : want) {
                    int nt, nh;
                    ss >> nt;
                    for (int j = 0; j < nt; j++) {
                        Tri t;
                        ss >> t[0] >> t[1] >> t[2];
                        w.first.insert(t);
                    }
                    ss >> nh;
                    for (int j = 0; j < nh; j++) {
                        int l;
                        ss >> l;
                        std::vector<int> v(l);
                        for (auto &x : v) ss >> x;
                        w.second.insert(v);
                    }
                }
                std::vector<Vec3> v;
                for (int x = 0; x < 20; x++) v.push_back(Vec3((x * 7) % 20 - 9.5, (x * x) % 11, x % 3));
                std::vector<uint32_t> ix(c.begin(), c.end());
                Mesh *mp = new Mesh;
                Mesh &m = *mp;
                const bool ok = attempt([&] { m.construct(v, ix); });
                std::string bad;
                if (!ok) {
                    if (!fail) bad = "refused";
                } else {
                    std::set<Tri> T;
                    std::multiset<std::vector<int>> H;
                    auto gi = m.getVertexIndices();
                    for (size_t j = 0; j + 2 < gi.size(); j += 3) T.insert(canon(gi[j], gi[j + 1], gi[j + 2]));
                    for (int j = 0; j < (int)m.numFaces(); j++) {
                        if (!m.face(j)->isHole()) continue;
                        std::vector<int> l;
                        for (auto it = m.face(j)->v_begin(); it != m.face(j)->v_end(); ++it) l.push_back(it->index());
                        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
                        H.insert(l);
                    }
                    bool match = false;
                    for (auto &w : want) match |= w.first == T && w.second == H && gi.size() == 3 * T.size();
                    if (want.empty()) bad = "accepted";
                    else if (!match) bad = "content";
                    else if ((int)m.numVertices() != n) bad = "vertices";
                }
                if (!bad.empty()) part << "MISMATCH " << bad << " case " << lines[k] << std::endl;
                if (ok) delete mp;
                pos[1] = k + 1;
            }
        }, 300);
        std::ifstream p(tmp);
        std::string l;
        while (std::getline(p, l)) o << l << "\n";
        size_t fin = pos[1] ? (size_t)pos[1] : at;
        done += fin - at;
        if (!strcmp(r, "ok")) break;
        {
            std::istringstream ss(lines[pos[0]]);
            int nc, x, fail = 0;
            ss >> nc;
            for (int j = 0; j < nc + 1; j++) ss >> x;
            ss >> fail;
            // an input that must be accepted counts as refused, whatever the way
            o << "MISMATCH " << r << " case " << lines[pos[0]] << "\n";
            if (!fail) o << "MISMATCH refused case " << lines[pos[0]] << "\n";
        }
        done++;
        at = pos[0] + 1;
        if (++deaths >= 8) {
            o << "STOPPED\n";
            break;
        }
    }
    unlink(tmp.c_str());
    o << "DONE " << done << "\n";
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    if (std::string(argv[3]) == "cases") return cases(argv[2], argv[1]);
    if (argc < 5) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    const std::string mode = argv[4];
    if (!out.open(argv[1])) return 2;
    if (mode == "build") {
        runBuilds(seed, n);
        out.line(J().str("op", "end").str("res", "ok").str("call", "").done());
        return 0;
    }
    for (int i = 0; i < n; i++) {
        const char *res = runChild([&] { reuse(seed * 1000003ull + (uint64_t)i, argv[5]); }, 60);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
