// Saving and loading.  Everything is written below OUT.d, which is removed.
//   files OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"
#include <fstream>

static Log out;
static std::string dir;
static std::map<std::string, int> tok;
static int token(float x, float y, float z) {
    float a[3] = { x == 0 ? 0 : x, y == 0 ? 0 : y, z == 0 ? 0 : z };
    return tok.emplace(std::string((const char *)a, sizeof a), (int)tok.size()).first->second;
}

static long long ulps(float a, float b) {
    auto key = [](float x) {
        int32_t i;
        memcpy(&i, &x, 4);
        return i < 0 ? (long long)INT32_MIN - i : (long long)i;
    };
    long long d = key(a) - key(b);
    return std::min<long long>(d < 0 ? -d : d, 1000000);
}

static std::vector<std::vector<int>> tris(const Mesh &m) {
    std::vector<std::vector<int>> r;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (f->isHole()) continue;
        std::vector<int> t;
        for (auto v = f->v_begin(); v != f->v_end(); ++v) t.push_back(v->index());
        r.push_back(t);
    }
    return r;
}
static std::vector<int> places(const Mesh &m) {
    std::vector<int> r;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 p = m.vertex(i)->pos();
        r.push_back(token((float)p[0], (float)p[1], (float)p[2]));
    }
    return r;
}

struct Content {
    std::vector<std::array<float, 3>> v;
    std::vector<std::vector<int>> f;
    int rest = 0;
};

static Content parseOBJ(const std::string &path) {
    Content c;
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string k, t;
        if (!(ss >> k) || k[0] == '#') continue;
        if (k == "v") {
            std::array<float, 3> p = { 0, 0, 0 };
            for (int d = 0; d < 3 && ss >> t; d++) p[d] = strtof(t.c_str(), nullptr);
            if (ss >> t) c.rest++;
            c.v.push_back(p);
        } else if (k == "f") {
            std::vector<int> f;
            while (ss >> t) f.push_back(atoi(t.c_str()) - 1);
            c.f.push_back(f);
        } else if (k == "vn" || k == "vt" || k == "o" || k == "g" || k == "s" || k == "mtllib" || k == "usemtl") {
        } else
            c.rest++;
    }
    return c;
}

static Content parsePLY(const std::string &path) {
    Content c;
    std::ifstream in(path, std::ios::binary);
    std::string line;
    bool binary = false, ply = false;
    struct Prop {
        bool list;
        std::string n, t, name;
    };
    std::vector<std::pair<std::string, int>> els;
    std::vector<std::vector<Prop>> props;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string k;
        ss >> k;
        if (k == "ply") ply = true;
        if (k == "format") {
            ss >> k;
            binary = k == "binary_little_endian";
            if (!binary && k != "ascii") c.rest++;
        }
        if (k == "element") {
            std::pair<std::string, int> e;
            ss >> e.first >> e.second;
            els.push_back(e);
            props.emplace_back();
        }
        if (k == "property" && !props.empty()) {
            Prop p;
            ss >> p.t;
            p.list = p.t == "list";
            if (p.list) ss >> p.n >> p.t;
            ss >> p.name;
            props.back().push_back(p);
        }
        if (k == "end_header") break;
    }
    if (!ply) c.rest++;
    auto num = [&](const std::string &t) -> double {
        if (!binary) {
            std::string w;
            in >> w;
            return strtod(w.c_str(), nullptr);
        }
        char b[8] = { 0 };
        auto get = [&](int n) { in.read(b, n); };
        if (t == "float" || t == "float32") { get(4); float x; memcpy(&x, b, 4); return x; }
        if (t == "double" || t == "float64") { get(8); double x; memcpy(&x, b, 8); return x; }
        if (t == "uchar" || t == "uint8") { get(1); return (uint8_t)b[0]; }
        if (t == "char" || t == "int8") { get(1); return (int8_t)b[0]; }
        if (t == "ushort" || t == "uint16") { get(2); uint16_t x; memcpy(&x, b, 2); return x; }
        if (t == "short" || t == "int16") { get(2); int16_t x; memcpy(&x, b, 2); return x; }
        if (t == "uint" || t == "uint32") { get(4); uint32_t x; memcpy(&x, b, 4); return x; }
        get(4);
        int32_t x;
        memcpy(&x, b, 4);
        return x;
    };
    for (size_t e = 0; e < els.size(); e++)
        for (int i = 0; i < els[e].second && in; i++) {
            std::array<float, 3> p = { 0, 0, 0 };
            std::vector<int> f;
            for (auto &q : props[e]) {
                int n = q.list ? (int)num(q.n) : 1;
                if (n > 1000) { c.rest++; n = 0; }
                for (int k = 0; k < n; k++) {
                    double x = num(q.t);
                    if (q.name == "x") p[0] = (float)x;
                    if (q.name == "y") p[1] = (float)x;
                    if (q.name == "z") p[2] = (float)x;
                    if (q.list) f.push_back((int)x);
                }
            }
            if (els[e].first == "vertex") c.v.push_back(p);
            else if (els[e].first == "face") c.f.push_back(f);
            else c.rest++;
        }
    if (!in) c.rest++;
    if (binary && in.peek() != EOF) c.rest++;
    return c;
}

static void edits(Mesh &m, Rng &g) {
    int n = g.chance(1, 3) ? 0 : g.range(1, 15);
    for (int k = 0; k < n; k++) {
        Halfedge *h = m.halfedge(g.upto((int)m.numHalfedges()));
        switch (g.upto(3)) {
        case 0: m.splitHE(h); break;
        case 1: m.flipHE(h); break;
        default:
            if (m.numFaces() > 8) m.collapseHE(h);
            break;
        }
    }
    if (g.chance(1, 5)) m.fillHoles();
}

static void one(uint64_t seed) {
    Rng g(seed);
    Shape s = randomShape(g);
    calling("edits");
    Mesh m(s.verts(), s.idx());
    edits(m, g);
    if (!Raw::of(m).sane) return;
    // coordinates: as they are, or of other sizes, close together, or no
    // single-precision numbers
    const int style = g.upto(5);
    const double big = std::ldexp(1.0, g.range(-20, 20));
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 p = m.vertex(i)->pos();
        if (style == 1) p = Vec3(p[0] * big, p[1] * big, p[2] * big);
        if (style == 2) p = Vec3(p[0] / 3.0, p[1] / 7.0, p[2] * 0.1);
        if (style == 3) p = Vec3(1000.0 + (float)p[0] / 16384.0f, p[1], p[2]);
        if (style == 4)
            for (int k = 0; k < 3; k++) {
                float x = (float)(g.unit() * 200 - 100);
                p[k] = x;
            }
        m.vertex(i)->setPos(p);
    }
    for (int fmt = 0; fmt < 2; fmt++) {
        const std::string path = dir + (fmt ? "/m.ply" : "/m.obj");
        if (g.chance(1, 3)) {  // something longer is there already
            std::ofstream o(path);
            for (int k = 0; k < 5000; k++) o << "f 1 2 3\n";
        } else
            unlink(path.c_str());
        std::vector<int> pos = places(m);
        auto tri = tris(m);
        calling("save");
        m.save(path);
        calling("");
        Content c = fmt ? parsePLY(path) : parseOBJ(path);
        bool exact = true;
        long long off = c.v.size() == m.numVertices() ? 0 : 1000000;
        std::vector<int> v;
        for (size_t i = 0; i < c.v.size(); i++) {
            v.push_back(token(c.v[i][0], c.v[i][1], c.v[i][2]));
            for (int k = 0; k < 3 && i < m.numVertices(); k++) off = std::max(off, ulps(c.v[i][k], (float)m.vertex((int)i)->pos()[k]));
        }
        for (int i = 0; i < (int)m.numVertices(); i++)
            for (int k = 0; k < 3; k++)
                if ((double)(float)m.vertex(i)->pos()[k] != m.vertex(i)->pos()[k]) exact = false;
        out.line(J().str("op", "save").str("fmt", fmt ? "ply" : "obj").i("exact", exact).i("off", off).raw("pos", jarr(pos)).raw("tri", jarr2(tri))
                     .raw("v", jarr(v)).raw("f", jarr2(c.f)).i("rest", c.rest).done());
        Mesh x;
        if (g.chance(1, 2)) {
            Shape o = randomShape(g);
            x.construct(o.verts(), o.idx());
        }
        calling("load");
        if (g.chance(1, 2)) x.load(path);
        else x = Mesh(path);
        calling("look");
        if (!Raw::of(x).sane) calling("load");
        out.line(J().str("op", "load").str("fmt", fmt ? "ply" : "obj").raw("pos", jarr(places(x))).raw("tri", jarr2(tris(x))).done());
    }
    calling("");
}

static void bad(const char *what, const std::function<void()> &f) {
    const char *res = runChild(f, 20);
    out.line(J().str("op", "bad").str("what", what).str("res", res).done());
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    dir = std::string(argv[1]) + ".d";
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/dir.obj").c_str(), 0755);
    mkdir((dir + "/dir.ply").c_str(), 0755);
    auto write = [&](const char *name, const std::string &t) { std::ofstream(dir + "/" + name) << t; };
    write("empty.ply", "");
    write("text.ply", "this is not a mesh\nat all\n");
    write("noface.ply", "ply\nformat ascii 1.0\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nend_header\n0 0 0\n");
    write("novert.ply", "ply\nformat ascii 1.0\nelement face 0\nproperty list uchar uint vertex_indices\nend_header\n");
    write("m.xyz", "0 0 0\n");
    write("noext", "v 0 0 0\n");
    Shape o = octa(4);
    Mesh m(o.verts(), o.idx());
    for (const char *p : { "/none/m.obj", "/none/m.ply", "/dir.obj", "/dir.ply", "/m.xyz", "/m.stl", "/noext", "/obj", "/m.obj.bak" })
        bad(("save" + std::string(p)).c_str(), [&] { m.save(dir + p); });
    for (const char *p : { "/none/m.obj", "/none/m.ply", "/none.obj", "/none.ply", "/m.xyz", "/noext", "/empty.ply", "/text.ply", "/noface.ply",
                           "/novert.ply", "/none.stl" })
        bad(("load" + std::string(p)).c_str(), [&] { Mesh x; x.load(dir + p); });
    for (const char *p : { "/none.obj", "/none.ply", "/m.xyz", "/empty.ply" })
        bad(("new" + std::string(p)).c_str(), [&] { Mesh x(dir + p); });
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { one(hs); }, 60);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    for (const char *f : { "/m.obj", "/m.ply", "/empty.ply", "/text.ply", "/noface.ply", "/novert.ply", "/m.xyz", "/noext", "/m.stl", "/obj", "/m.obj.bak" })
        unlink((dir + f).c_str());
    rmdir((dir + "/dir.obj").c_str());
    rmdir((dir + "/dir.ply").c_str());
    rmdir(dir.c_str());
    return 0;
}
