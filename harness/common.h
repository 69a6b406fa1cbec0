// Shared parts of the conformance drivers: event log, structure dump with
// stable vertex identities, shape generators and child processes.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "core/vec.h"
#include "core/mesh.h"
#include "core/vertex.h"
#include "core/halfedge.h"
#include "core/face.h"

using tinymesh::Face;
using tinymesh::Halfedge;
using tinymesh::Mesh;
using tinymesh::Vertex;

// ---------------------------------------------------------------- random
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {
    }
    int upto(int n) {  // 0 .. n-1
        return (int)(g() % (uint64_t)n);
    }
    int range(int a, int b) {  // a .. b
        return a + upto(b - a + 1);
    }
    bool chance(int num, int den) {
        return upto(den) < num;
    }
    double unit() {
        return (double)(g() >> 11) * (1.0 / 9007199254740992.0);
    }
};

// ------------------------------------------------------------------ JSON
struct J {
    std::string s;
    bool first = true;
    J() : s("{") {
    }
    J &key(const char *k) {
        if (!first) s += ",";
        first = false;
        s += "\"";
        s += k;
        s += "\":";
        return *this;
    }
    J &i(const char *k, long long v) {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    J &str(const char *k, const std::string &v) {
        key(k);
        s += "\"" + v + "\"";
        return *this;
    }
    J &raw(const char *k, const std::string &v) {
        key(k);
        s += v;
        return *this;
    }
    std::string done() const {
        return s + "}";
    }
};

template <typename V>
std::string jarr(const V &v) {
    std::string s = "[";
    bool f = true;
    for (const auto &x : v) {
        if (!f) s += ",";
        f = false;
        s += std::to_string((long long)x);
    }
    return s + "]";
}

template <typename V>
std::string jarr2(const V &v) {
    std::string s = "[";
    bool f = true;
    for (const auto &x : v) {
        if (!f) s += ",";
        f = false;
        s += jarr(x);
    }
    return s + "]";
}

inline std::string jstrs(const std::vector<std::string> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) s += ",";
        s += v[i];
    }
    return s + "]";
}

// ------------------------------------------------------------- event log
// Written with write(2) so that lines survive a crash of the process.
struct Log {
    int fd = -1;
    bool open(const std::string &path, bool append = false) {
        fd = ::open(path.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644);
        return fd >= 0;
    }
    void line(const std::string &s) {
        std::string t = s + "\n";
        size_t off = 0;
        while (off < t.size()) {
            ssize_t k = ::write(fd, t.data() + off, t.size() - off);
            if (k <= 0) _exit(97);
            off += (size_t)k;
        }
    }
};

// --------------------------------------------------------- raw structure
// References are 1-based; 0 is null, -1 a pointer to something that is not
// in the mesh's lists.
struct Raw {
    std::vector<int> hs, hn, hr, hf, hb, hi;
    std::vector<int> vh, vi, vl;
    std::vector<int> fh, fi, fo;
    bool sane = false;  // pointers all live, paired and closed: safe to walk

    static Raw of(const Mesh &m) {
        Raw r;
        const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
        std::unordered_map<const void *, int> mv, mh, mf;
        for (int i = 0; i < nv; i++) mv[m.vertex(i)] = i + 1;
        for (int i = 0; i < nh; i++) mh[m.halfedge(i)] = i + 1;
        for (int i = 0; i < nf; i++) mf[m.face(i)] = i + 1;
        auto ref = [](const std::unordered_map<const void *, int> &t, const void *p) {
            if (!p) return 0;
            auto it = t.find(p);
            return it == t.end() ? -1 : it->second;
        };
        for (int i = 0; i < nh; i++) {
            const Halfedge *h = m.halfedge(i);
            r.hs.push_back(ref(mv, h->src()));
            r.hn.push_back(ref(mh, h->next()));
            r.hr.push_back(ref(mh, h->rev()));
            r.hf.push_back(ref(mf, h->face()));
            r.hb.push_back(h->isBoundary() ? 1 : 0);
            r.hi.push_back(h->index());
        }
        for (int i = 0; i < nv; i++) {
            Vertex *v = m.vertex(i);
            r.vh.push_back(ref(mh, v->he_begin().ptr()));
            r.vi.push_back(v->index());
            r.vl.push_back(v->isLocked() ? 1 : 0);
        }
        for (int i = 0; i < nf; i++) {
            Face *f = m.face(i);
            r.fh.push_back(ref(mh, f->he_begin().ptr()));
            r.fi.push_back(f->index());
        }
        r.sane = r.check();
        // isHole() may walk, so only ask once walking is known to be safe
        for (int i = 0; i < nf; i++) r.fo.push_back(r.sane ? (m.face(i)->isHole() ? 1 : 0) : -1);
        return r;
    }

    bool check() const {
        const int nv = (int)vh.size(), nh = (int)hs.size(), nf = (int)fh.size();
        std::vector<int> seen(nh, 0);
        for (int i = 0; i < nh; i++) {
            if (hs[i] < 1 || hs[i] > nv) return false;
            if (hn[i] < 1 || hr[i] < 1 || hf[i] < 1) return false;
            if (seen[hn[i] - 1]++) return false;
        }
        for (int i = 0; i < nh; i++) {
            if (hr[hr[i] - 1] != i + 1 || hr[i] == i + 1) return false;
        }
        for (int i = 0; i < nv; i++)
            if (vh[i] < 1) return false;
        for (int i = 0; i < nf; i++)
            if (fh[i] < 1) return false;
        return true;
    }
};

// Stable vertex identities: each vertex object keeps its number for as long
// as it stays in the mesh's list.
struct Ids {
    std::unordered_map<const Vertex *, int> id;
    int next = 0;
    int fresh = -1;  // identity of the vertex that appeared last in refresh()
    int nfresh = 0;
    void reset(const Mesh &m) {
        id.clear();
        next = 0;
        refresh(m);
    }
    void refresh(const Mesh &m) {
        std::unordered_map<const Vertex *, int> n;
        fresh = -1;
        nfresh = 0;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            const Vertex *v = m.vertex(i);
            auto it = id.find(v);
            if (it != id.end()) {
                n[v] = it->second;
            } else {
                fresh = next;
                nfresh++;
                n[v] = next++;
            }
        }
        id.swap(n);
    }
    int of(const Vertex *v) const {
        auto it = id.find(v);
        return it == id.end() ? -1 : it->second;
    }
};

template <typename It, typename F>
std::vector<int> walk(It b, It e, bool post, size_t limit, F f) {
    std::vector<int> r;
    size_t n = 0;
    if (post) {
        for (; b != e;) {
            auto old = b++;
            r.push_back(f(old.ptr()));
            if (++n > limit) break;
        }
    } else {
        for (; b != e; ++b) {
            r.push_back(f(b.ptr()));
            if (++n > limit) break;
        }
    }
    return r;
}

inline void distinct(std::vector<std::vector<int>> &all, const std::vector<int> &s) {
    if (std::find(all.begin(), all.end(), s) == all.end()) all.push_back(s);
}

inline std::string jarr3(const std::vector<std::vector<std::vector<int>>> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) s += ",";
        s += jarr2(v[i]);
    }
    return s + "]";
}

// Everything a caller can see of a mesh's structure, as one JSON record.
//   lvl 0: pointers, identities, holes, locks
//   lvl 1: also what the mesh itself answers (degrees, boundary tests, counts, self-check)
//   lvl 2: also every iterator
inline std::string dumpRaw(const Mesh &m, const Raw &r, const Ids &ids, int lvl) {
    J j;
    j.i("sane", r.sane);
    j.raw("hs", jarr(r.hs)).raw("hn", jarr(r.hn)).raw("hr", jarr(r.hr)).raw("hf", jarr(r.hf));
    j.raw("hb", jarr(r.hb)).raw("hi", jarr(r.hi));
    j.raw("vh", jarr(r.vh)).raw("vi", jarr(r.vi)).raw("vl", jarr(r.vl));
    j.raw("fh", jarr(r.fh)).raw("fi", jarr(r.fi)).raw("fo", jarr(r.fo));
    std::vector<int> vd;
    for (int i = 0; i < (int)m.numVertices(); i++) vd.push_back(ids.of(m.vertex(i)));
    j.raw("vd", jarr(vd));
    if (lvl >= 1 && r.sane) {
        std::vector<int> vb, vg, fb, fc, fl;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            vb.push_back(m.vertex(i)->isBoundary() ? 1 : 0);
            vg.push_back(m.vertex(i)->degree());
        }
        for (int i = 0; i < (int)m.numFaces(); i++) {
            fb.push_back(m.face(i)->isBoundary() ? 1 : 0);
            fc.push_back(m.face(i)->numCorners());
            fl.push_back(m.face(i)->isLocked() ? 1 : 0);
        }
        j.raw("vb", jarr(vb)).raw("vg", jarr(vg)).raw("fb", jarr(fb)).raw("fc", jarr(fc)).raw("fl", jarr(fl));
        j.i("nv", (long long)m.numVertices()).i("nh", (long long)m.numHalfedges());
        j.i("nf", (long long)m.numFaces()).i("ne", (long long)m.numEdges());
        j.i("ok", m.verify() ? 1 : 0);
        std::vector<int> pv, hl;
        std::unordered_map<const void *, int> mh;
        for (int i = 0; i < (int)m.numHalfedges(); i++) mh[m.halfedge(i)] = i + 1;
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            pv.push_back(mh[m.halfedge(i)->prev()]);
            hl.push_back(m.halfedge(i)->isLocked() ? 1 : 0);
        }
        j.raw("hp", jarr(pv)).raw("hl", jarr(hl));
    } else {
        j.i("nolvl", 1);
    }
    if (lvl >= 2 && r.sane) {
        std::unordered_map<const void *, int> mv, mh, mf;
        for (int i = 0; i < (int)m.numVertices(); i++) mv[m.vertex(i)] = i + 1;
        for (int i = 0; i < (int)m.numHalfedges(); i++) mh[m.halfedge(i)] = i + 1;
        for (int i = 0; i < (int)m.numFaces(); i++) mf[m.face(i)] = i + 1;
        auto rv = [&](const Vertex *p) { return mv.count(p) ? mv[p] : -1; };
        auto rh = [&](const Halfedge *p) { return mh.count(p) ? mh[p] : -1; };
        auto rf = [&](const Face *p) { return mf.count(p) ? mf[p] : -1; };
        const size_t lim = m.numHalfedges() + 1;
        std::vector<std::vector<std::vector<int>>> vv, vhh, vf, fv, fhh, ff;
        for (int i = 0; i < (int)m.numVertices(); i++) {
            Vertex *v = m.vertex(i);
            const Vertex *c = v;
            vv.emplace_back();
            vhh.emplace_back();
            vf.emplace_back();
            for (int p = 0; p < 2; p++) {
                distinct(vv.back(), walk(v->v_begin(), v->v_end(), p, lim, rv));
                distinct(vv.back(), walk(c->v_begin(), c->v_end(), p, lim, rv));
                distinct(vhh.back(), walk(v->he_begin(), v->he_end(), p, lim, rh));
                distinct(vhh.back(), walk(c->he_begin(), c->he_end(), p, lim, rh));
                distinct(vf.back(), walk(v->f_begin(), v->f_end(), p, lim, rf));
                distinct(vf.back(), walk(c->f_begin(), c->f_end(), p, lim, rf));
            }
        }
        for (int i = 0; i < (int)m.numFaces(); i++) {
            Face *f = m.face(i);
            const Face *c = f;
            fv.emplace_back();
            fhh.emplace_back();
            ff.emplace_back();
            for (int p = 0; p < 2; p++) {
                distinct(fv.back(), walk(f->v_begin(), f->v_end(), p, lim, rv));
                distinct(fv.back(), walk(c->v_begin(), c->v_end(), p, lim, rv));
                distinct(fhh.back(), walk(f->he_begin(), f->he_end(), p, lim, rh));
                distinct(fhh.back(), walk(c->he_begin(), c->he_end(), p, lim, rh));
                distinct(ff.back(), walk(f->f_begin(), f->f_end(), p, lim, rf));
                distinct(ff.back(), walk(c->f_begin(), c->f_end(), p, lim, rf));
            }
        }
        j.raw("ivv", jarr3(vv)).raw("ivh", jarr3(vhh)).raw("ivf", jarr3(vf));
        j.raw("ifv", jarr3(fv)).raw("ifh", jarr3(fhh)).raw("iff", jarr3(ff));
    }
    return j.done();
}

// Integer positions (times a unit); a coordinate that is not an exact small
// integer is logged as the marker 99999.
inline long long icoord(double x, double unit) {
    double y = x / unit;
    if (!(std::fabs(y) < 50000.0)) return 99999;
    long long k = std::llround(y);
    return (double)k * unit == x ? k : 99999;
}

inline std::string dumpPos(const Mesh &m, double unit = 1.0) {
    std::vector<std::vector<long long>> p;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 q = m.vertex(i)->pos();
        p.push_back({ icoord(q[0], unit), icoord(q[1], unit), icoord(q[2], unit) });
    }
    return jarr2(p);
}

// ------------------------------------------------------------- processes
// The call in progress, readable by the parent when the child is gone.
inline char *currentCall() {
    static char *p = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p;
}
inline void calling(const char *name) {
    strncpy(currentCall(), name, 4000);
}

// Outcome of running f in a child: "ok", "error" (the library's own report),
// "exception", "crash" or "hang".
inline void onTerminate() {
    if (std::current_exception()) {
        try {
            std::rethrow_exception(std::current_exception());
        } catch (const std::logic_error &) {
            _exit(43);
        } catch (const std::bad_alloc &) {
            _exit(43);
        } catch (const std::runtime_error &) {
            _exit(42);
        } catch (...) {
            _exit(43);
        }
    }
    _exit(41);
}

inline const char *runChild(const std::function<void()> &f, double limitSec, bool quiet = true) {
    fflush(stdout);
    fflush(stderr);
    calling("");
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        if (quiet) {
            int n = ::open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        std::set_terminate(onTerminate);
        alarm((unsigned)(limitSec + 0.999));
        try {
            f();
        } catch (const std::logic_error &) {
            _exit(43);
        } catch (const std::bad_alloc &) {
            _exit(43);
        } catch (const std::runtime_error &) {
            _exit(42);
        } catch (...) {
            _exit(43);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) return "ok";
        if (c == 41 || c == 42) return "error";
        if (c == 43) return "exception";
        if (c == 97) exit(3);
        return "crash";
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "hang";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return "error";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        fprintf(stderr, "child was killed from outside\n");
        exit(3);
    }
    return "crash";
}

// ----------------------------------------------------------------- shapes
struct Shape {
    std::vector<std::array<int, 3>> p;
    std::vector<std::array<int, 3>> t;
    std::vector<Vec3> verts(double unit = 1.0) const {
        std::vector<Vec3> r;
        for (auto &q : p) r.push_back(Vec3(q[0] * unit, q[1] * unit, q[2] * unit));
        return r;
    }
    std::vector<uint32_t> idx() const {
        std::vector<uint32_t> r;
        for (auto &q : t)
            for (int k = 0; k < 3; k++) r.push_back((uint32_t)q[k]);
        return r;
    }
    void add(const Shape &o, int dx, int dy, int dz) {
        int b = (int)p.size();
        for (auto q : o.p) p.push_back({ q[0] + dx, q[1] + dy, q[2] + dz });
        for (auto q : o.t) t.push_back({ q[0] + b, q[1] + b, q[2] + b });
    }
    bool distinctPos() const {
        std::set<std::array<int, 3>> s(p.begin(), p.end());
        return s.size() == p.size();
    }
    // drop vertices no triangle uses
    void compact() {
        std::vector<int> m(p.size(), -1);
        std::vector<std::array<int, 3>> q;
        for (auto &f : t)
            for (int k = 0; k < 3; k++) {
                if (m[f[k]] < 0) {
                    m[f[k]] = (int)q.size();
                    q.push_back(p[f[k]]);
                }
                f[k] = m[f[k]];
            }
        p = q;
    }
};

inline Shape tetra(int s) {
    Shape r;
    r.p = { { s, s, s }, { s, -s, -s }, { -s, s, -s }, { -s, -s, s } };
    r.t = { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 1, 3, 2 } };
    return r;
}
inline Shape octa(int s) {
    Shape r;
    r.p = { { 0, 0, s }, { s, 0, 0 }, { 0, s, 0 }, { -s, 0, 0 }, { 0, -s, 0 }, { 0, 0, -s } };
    r.t = { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 1 }, { 5, 2, 1 }, { 5, 3, 2 }, { 5, 4, 3 }, { 5, 1, 4 } };
    return r;
}
inline Shape icosa(int a, int b) {
    Shape r;
    r.p = { { -a, b, 0 }, { a, b, 0 }, { -a, -b, 0 }, { a, -b, 0 }, { 0, -a, b }, { 0, a, b },
            { 0, -a, -b }, { 0, a, -b }, { b, 0, -a }, { b, 0, a }, { -b, 0, -a }, { -b, 0, a } };
    r.t = { { 0, 11, 5 }, { 0, 5, 1 }, { 0, 1, 7 }, { 0, 7, 10 }, { 0, 10, 11 }, { 1, 5, 9 }, { 5, 11, 4 },
            { 11, 10, 2 }, { 10, 7, 6 }, { 7, 1, 8 }, { 3, 9, 4 }, { 3, 4, 2 }, { 3, 2, 6 }, { 3, 6, 8 },
            { 3, 8, 9 }, { 4, 9, 5 }, { 2, 4, 11 }, { 6, 2, 10 }, { 8, 6, 7 }, { 9, 8, 1 } };
    return r;
}
// n x m quads in the plane z = 0, cell size s
inline Shape grid(int n, int m, int s, Rng *g = nullptr, int zjit = 0) {
    Shape r;
    for (int j = 0; j <= m; j++)
        for (int i = 0; i <= n; i++)
            r.p.push_back({ (2 * i - n) * s / 2, (2 * j - m) * s / 2, g && zjit ? g->range(-zjit, zjit) : 0 });
    for (int j = 0; j < m; j++)
        for (int i = 0; i < n; i++) {
            int a = j * (n + 1) + i, b = a + 1, c = a + n + 1, d = c + 1;
            if (g && g->chance(1, 2)) {
                r.t.push_back({ a, b, d });
                r.t.push_back({ a, d, c });
            } else {
                r.t.push_back({ a, b, c });
                r.t.push_back({ b, d, c });
            }
        }
    return r;
}
// closed n x m grid on a torus (n around, m in the tube)
inline Shape torus(int n, int m, double R, double r0) {
    Shape r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            double u = 2 * M_PI * i / n, v = 2 * M_PI * j / m;
            r.p.push_back({ (int)std::lround((R + r0 * cos(v)) * cos(u)), (int)std::lround((R + r0 * cos(v)) * sin(u)),
                            (int)std::lround(r0 * sin(v)) });
        }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            int a = i * m + j, b = ((i + 1) % n) * m + j, c = i * m + (j + 1) % m, d = ((i + 1) % n) * m + (j + 1) % m;
            r.t.push_back({ a, b, d });
            r.t.push_back({ a, d, c });
        }
    return r;
}
// open tube, n around, m rings of quads
inline Shape tube(int n, int m, double R, int h) {
    Shape r;
    for (int j = 0; j <= m; j++)
        for (int i = 0; i < n; i++) {
            double u = 2 * M_PI * i / n;
            r.p.push_back({ (int)std::lround(R * cos(u)), (int)std::lround(R * sin(u)), (2 * j - m) * h / 2 });
        }
    for (int j = 0; j < m; j++)
        for (int i = 0; i < n; i++) {
            int a = j * n + i, b = j * n + (i + 1) % n, c = a + n, d = b + n;
            r.t.push_back({ a, b, d });
            r.t.push_back({ a, d, c });
        }
    return r;
}
// disk: centre, n spokes, k rings
inline Shape disk(int n, int k, double R) {
    Shape r;
    r.p.push_back({ 0, 0, 0 });
    for (int q = 1; q <= k; q++)
        for (int i = 0; i < n; i++) {
            double u = 2 * M_PI * i / n;
            r.p.push_back({ (int)std::lround(R * q / k * cos(u)), (int)std::lround(R * q / k * sin(u)), 0 });
        }
    for (int i = 0; i < n; i++) r.t.push_back({ 0, 1 + i, 1 + (i + 1) % n });
    for (int q = 1; q < k; q++)
        for (int i = 0; i < n; i++) {
            int a = 1 + (q - 1) * n + i, b = 1 + (q - 1) * n + (i + 1) % n, c = a + n, d = b + n;
            r.t.push_back({ a, c, b });
            r.t.push_back({ b, c, d });
        }
    return r;
}
// two poles and k rings of n vertices
inline Shape sphere(int n, int k, double R) {
    Shape r;
    r.p.push_back({ 0, 0, (int)R });
    for (int q = 1; q <= k; q++)
        for (int i = 0; i < n; i++) {
            double u = 2 * M_PI * (i + 0.5 * (q % 2)) / n, v = M_PI * q / (k + 1);
            r.p.push_back({ (int)std::lround(R * sin(v) * cos(u)), (int)std::lround(R * sin(v) * sin(u)),
                            (int)std::lround(R * cos(v)) });
        }
    r.p.push_back({ 0, 0, -(int)R });
    const int last = 1 + k * n;
    for (int i = 0; i < n; i++) r.t.push_back({ 0, 1 + i, 1 + (i + 1) % n });
    for (int q = 1; q < k; q++)
        for (int i = 0; i < n; i++) {
            int a = 1 + (q - 1) * n + i, b = 1 + (q - 1) * n + (i + 1) % n, c = a + n, d = b + n;
            if (q % 2) {
                r.t.push_back({ a, d, b });
                r.t.push_back({ a, c, d });
            } else {
                r.t.push_back({ a, c, b });
                r.t.push_back({ b, c, d });
            }
        }
    for (int i = 0; i < n; i++) r.t.push_back({ last, 1 + (k - 1) * n + (i + 1) % n, 1 + (k - 1) * n + i });
    return r;
}

// Check on the triangle list alone that it is a manifold surface.
inline bool manifold(const Shape &s) {
    std::map<std::pair<int, int>, int> e;
    std::vector<std::map<int, int>> link(s.p.size());
    for (auto &t : s.t) {
        for (int k = 0; k < 3; k++) {
            int a = t[k], b = t[(k + 1) % 3], c = t[(k + 2) % 3];
            if (a == b) return false;
            if (e.count({ a, b })) return false;
            e[{ a, b }] = 1;
            if (link[a].count(b)) return false;
            link[a][b] = c;
        }
    }
    for (size_t v = 0; v < s.p.size(); v++) {
        auto &l = link[v];
        if (l.empty()) return false;
        int start = l.begin()->first, starts = 0;
        for (auto &kv : l) {
            bool has = false;
            for (auto &q : l)
                if (q.second == kv.first) has = true;
            if (!has) {
                start = kv.first;
                starts++;
            }
        }
        if (starts > 1) return false;
        int n = 0, x = start;
        while (l.count(x) && n < (int)l.size()) {
            x = l[x];
            n++;
            if (x == start) break;
        }
        if (n != (int)l.size()) return false;
    }
    return true;
}

// Remove random triangles while the rest stays a manifold surface.
inline void punch(Shape &s, Rng &g, int times) {
    for (int k = 0; k < times; k++) {
        if (s.t.size() < 3) return;
        Shape r = s;
        r.t.erase(r.t.begin() + g.upto((int)r.t.size()));
        size_t before = r.p.size();
        r.compact();
        (void)before;
        if (manifold(r)) s = r;
    }
}

// Put vertices into triangles, mostly close to each other, which makes
// triples of edges that go round no triangle.
inline void stack(Shape &s, Rng &g, int times) {
    int last = -1;
    for (int k = 0; k < times; k++) {
        std::vector<int> near;
        for (int i = 0; i < (int)s.t.size(); i++)
            if (last >= 0 && (s.t[i][0] == last || s.t[i][1] == last || s.t[i][2] == last)) near.push_back(i);
        const int f = near.empty() || g.chance(1, 5) ? g.upto((int)s.t.size()) : near[g.upto((int)near.size())];
        const std::array<int, 3> t = s.t[f];
        std::array<int, 3> q;
        for (int c = 0; c < 3; c++) q[c] = (s.p[t[0]][c] + s.p[t[1]][c] + s.p[t[2]][c]) / 3 + g.range(-1, 1);
        if (std::find(s.p.begin(), s.p.end(), q) != s.p.end()) continue;
        const int n = (int)s.p.size();
        s.p.push_back(q);
        s.t[f] = { t[0], t[1], n };
        s.t.push_back({ t[1], t[2], n });
        s.t.push_back({ t[2], t[0], n });
        if (last < 0 || g.chance(1, 4)) last = n;
    }
}

inline void shuffleLabels(Shape &s, Rng &g) {
    std::vector<int> perm(s.p.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = (int)i;
    for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[g.upto((int)i)]);
    std::vector<std::array<int, 3>> q(s.p.size());
    for (size_t i = 0; i < perm.size(); i++) q[perm[i]] = s.p[i];
    s.p = q;
    for (auto &f : s.t)
        for (int k = 0; k < 3; k++) f[k] = perm[f[k]];
    for (size_t i = s.t.size(); i > 1; i--) std::swap(s.t[i - 1], s.t[g.upto((int)i)]);
    for (auto &f : s.t) {
        int k = g.upto(3);
        std::rotate(f.begin(), f.begin() + k, f.end());
    }
}

inline void flipOrientation(Shape &s) {
    for (auto &f : s.t) std::swap(f[1], f[2]);
}

inline void jitter(Shape &s, Rng &g, int a) {
    for (auto &q : s.p)
        for (int k = 0; k < 3; k++) q[k] += g.range(-a, a);
}

// A random surface with integer coordinates of absolute value at most 32.
// kind < 0: any kind
inline Shape randomShape(Rng &g, int kind = -1) {
    for (int tries = 0; tries < 200; tries++) {
        Shape s;
        int k = kind >= 0 ? kind : g.upto(16);
        switch (k) {
        case 0: s = tetra(16); break;
        case 1: s = octa(24); break;
        case 2: s = icosa(16, 24); break;
        case 3: s = grid(g.range(1, 5), g.range(1, 5), 8, &g, g.chance(1, 2) ? 8 : 0); break;
        case 4: s = torus(g.range(5, 8), g.range(3, 5), 20, 10); break;
        case 5: s = tube(g.range(3, 8), g.range(1, 4), 20, 12); break;
        case 6: s = disk(g.range(3, 9), g.range(1, 3), 28); break;
        case 7: s = sphere(g.range(3, 7), g.range(1, 4), 28); break;
        case 8:
            s = octa(8);
            s.add(tetra(6), 20, 0, 0);
            break;
        case 9:
            s = disk(5, 2, 12);
            s.add(tube(4, 1, 8, 8), -16, 4, 8);
            break;
        case 10:
            s = sphere(6, 3, 24);
            punch(s, g, g.range(1, 6));
            break;
        case 11:
            s = grid(4, 4, 8, &g, 6);
            punch(s, g, g.range(1, 8));
            break;
        case 12:
            s = torus(7, 4, 20, 10);
            punch(s, g, g.range(1, 6));
            break;
        case 13:
            s = sphere(g.range(6, 9), 1, 28);  // high-degree poles
            break;
        case 14:
            s = grid(1, g.range(2, 6), 8);  // strip
            break;
        default:
            s = tetra(8);
            s.add(grid(2, 2, 8), 0, 0, 20);
            s.add(disk(3, 1, 10), 20, 0, 0);
            break;
        }
        if (s.p.size() < 24 && g.chance(1, 3)) stack(s, g, g.range(2, 9));
        if (g.chance(1, 3)) jitter(s, g, 2);
        if (g.chance(1, 10)) {
            for (auto &q : s.p)
                for (int c = 0; c < 3; c++) q[c] = g.range(-16, 16) * 2;
        }
        if (g.chance(1, 2)) shuffleLabels(s, g);
        if (g.chance(1, 3)) flipOrientation(s);
        s.compact();
        bool ok = s.distinctPos() && manifold(s);
        for (auto &q : s.p)
            for (int c = 0; c < 3; c++) {
                if (std::abs(q[c]) > 32) ok = false;
            }
        if (ok) return s;
    }
    return octa(24);
}

// A larger uneven surface, coordinates up to about 100.
inline Shape denseShape(Rng &g) {
    for (int tries = 0; tries < 100; tries++) {
        Shape s;
        switch (g.upto(6)) {
        case 0: s = grid(g.range(4, 7), g.range(4, 7), 16, &g, g.range(0, 12)); break;
        case 1: s = sphere(g.range(6, 10), g.range(3, 5), 60); break;
        case 2: s = torus(g.range(8, 10), g.range(5, 7), 60, 28); break;
        case 3: s = tube(g.range(6, 9), g.range(3, 6), 40, 20); break;
        case 4: s = disk(g.range(5, 9), g.range(3, 5), 80); break;
        default:
            s = sphere(g.range(6, 8), 4, 40);
            s.add(grid(4, 4, 16, &g, 4), 60, 0, 50);
            break;
        }
        if (g.chance(1, 3)) punch(s, g, g.range(1, 5));
        if (g.chance(3, 4)) jitter(s, g, g.range(1, 8));
        if (g.chance(1, 2)) shuffleLabels(s, g);
        s.compact();
        if (s.distinctPos() && manifold(s)) return s;
    }
    return sphere(8, 4, 60);
}

// A small surface with coordinates of absolute value at most 8.
inline Shape latticeShape(Rng &g, bool closed = false) {
    for (int tries = 0; tries < 200; tries++) {
        Shape s;
        switch (closed ? g.upto(5) : g.upto(7)) {
        case 0: s = tetra(4); break;
        case 1: s = octa(g.range(2, 8)); break;
        case 2: s = sphere(g.range(3, 6), g.range(1, 2), 7); break;
        case 3: s = torus(5, 3, 5, 3); break;
        case 5: s = grid(g.range(1, 3), g.range(1, 3), 4, &g, 3); break;
        case 6: s = disk(g.range(3, 6), g.range(1, 2), 7); break;
        default:
            s = tetra(2);
            s.add(octa(2), 4, 1, 0);
            break;
        }
        if (g.chance(1, 2)) jitter(s, g, 2);
        if (g.chance(1, 5))
            for (auto &q : s.p)
                for (int c = 0; c < 3; c++) q[c] = g.range(-8, 8);
        if (g.chance(1, 2)) shuffleLabels(s, g);
        s.compact();
        bool ok = s.distinctPos() && manifold(s);
        for (auto &q : s.p)
            for (int c = 0; c < 3; c++) ok = ok && std::abs(q[c]) <= 8;
        if (ok) return s;
    }
    return octa(4);
}
