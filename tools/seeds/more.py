import os, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = runpy.run_path(os.path.join(HERE, "rest.py"))["HEAD"]
B = "src/tinymesh/"
S, DN, X = B + "filters/smooth.cpp", B + "filters/denoise.cpp", B + "ops/features.cpp"
FILT = ["filters/smooth.cpp", "filters/denoise.cpp"]
FIELD = ["ops/features.cpp", "ops/operators.cpp"]
COH = ["core/bvh.cpp", "filters/smooth.cpp", "remesh/remesh.cpp", "restore/completion.cpp", "ops/features.cpp", "ops/operators.cpp"]
BUMPS = r'''
#include "filters/filters.h"
static void bumpy(int n, int k, P &p, I &t) {
    ball(n, k, p, t);
    for (auto &q : p) q = q * (1.0 + 0.1 * rnd());
}
static double apart(Mesh &a, Mesh &b, double f = 1.0) {
    double d = 0.0;
    for (int i = 0; i < (int)a.numVertices(); i++) d = std::max(d, length(a.vertex(i)->pos() * f - b.vertex(i)->pos()));
    return d;
}
'''
QEM = r'''
#include "filters/filters.h"
#include "remesh/remesh.h"
// nothing is smoothed here, so that merges can be seen
namespace tinymesh {
void smoothLaplacian(Mesh &, double, bool, int) {}
void smoothTaubin(Mesh &, double, double, int) {}
}
struct Plane { Vec3 n, p; };
typedef std::vector<std::vector<Plane>> Planes;
static bool rim(const Face *f) {
    for (auto it = f->he_begin(); it != f->he_end(); ++it)
        if (it->isBoundary() || it->rev()->isBoundary() || it->rev()->face()->isHole()) return true;
    return false;
}
static Planes planes(const Mesh &m) {
    Planes r(m.numVertices());
    for (int i = 0; i < (int)m.numFaces(); i++) {
        const Face *f = m.face(i);
        if (f->isHole() || rim(f)) continue;
        std::vector<const Vertex *> v;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) v.push_back(it.ptr());
        const Vec3 n = normalize(cross(v[1]->pos() - v[0]->pos(), v[2]->pos() - v[0]->pos()));
        for (auto u : v) r[u->index()].push_back({ n, v[0]->pos() });
    }
    return r;
}
static double err(const std::vector<Plane> &a, const std::vector<Plane> &b, const Vec3 &x) {
    double s = 0.0;
    for (auto &q : a) s += std::pow(dot(q.n, x - q.p), 2);
    for (auto &q : b) s += std::pow(dot(q.n, x - q.p), 2);
    return s;
}
// the least error there is (closed formula for three equations)
static double lowest(const std::vector<Plane> &a, const std::vector<Plane> &b) {
    Vec3 c[3] = { Vec3(0.0), Vec3(0.0), Vec3(0.0) }, r(0.0);
    for (auto *l : { &a, &b })
        for (auto &q : *l)
            for (int i = 0; i < 3; i++) {
                c[i] += q.n[i] * q.n;
                r[i] += q.n[i] * dot(q.n, q.p);
            }
    const double d = dot(c[0], cross(c[1], c[2]));
    if (d < 0.1) return 1e9;
    return err(a, b, (cross(c[1], c[2]) * r[0] + cross(c[2], c[0]) * r[1] + cross(c[0], c[1]) * r[2]) / d);
}
// one merge: the two ends and the place of the vertex that remains
static bool merge(const P &given, const I &t, int &a, int &b, Vec3 &x) {
    Mesh m(given, t);
    P p;
    for (int i = 0; i < (int)m.numVertices(); i++) p.push_back(m.vertex(i)->pos());
    const int nf = (int)m.numFaces();
    simplifyQEM(m, nf - 2, 1, false);
    if ((int)m.numFaces() != nf - 2) return false;
    std::vector<int> left;
    for (int i = 0; i < (int)p.size(); i++) {
        bool found = false;
        for (int k = 0; k < (int)m.numVertices(); k++) found = found || length(m.vertex(k)->pos() - p[i]) == 0.0;
        if (!found) left.push_back(i);
    }
    if (left.size() != 2) return false;
    a = left[0];
    b = left[1];
    int fresh = 0;
    for (int k = 0; k < (int)m.numVertices(); k++) {
        bool old = false;
        for (auto &q : p) old = old || length(m.vertex(k)->pos() - q) == 0.0;
        if (!old) x = m.vertex(k)->pos(), fresh++;
    }
    return fresh == 1;
}
// no point close by is better
static bool least(const Planes &q, int a, int b, const Vec3 &x) {
    for (int k = 0; k < 6; k++) {
        Vec3 y = x;
        y[k / 2] += k % 2 ? 1e-3 : -1e-3;
        if (err(q[a], q[b], y) < err(q[a], q[b], x)) return false;
    }
    return true;
}
'''
PYTHON = r'''#!/bin/bash
# Run in the repository root after its build.  Exit 0: behaves as stated.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
ok=1
pids=()
inc="$(/usr/bin/python3 -c "import sysconfig; print(sysconfig.get_paths()['include'])")"
for f in src/pybind11.cpp $(find src/tinymesh -name '*.cpp'); do
  g++ -std=c++17 -O1 -w -fopenmp -fPIC -fvisibility=hidden -DTINYMESH_PYTHON_MODULE -I"$here" -Isrc/tinymesh -Isrc -I/usr/include/eigen3 -I"$inc" -c $f -o "$w/$(echo $f | tr / _).o" &
  pids+=($!)
  [ ${#pids[@]} -lt 6 ] || { wait ${pids[0]} || ok=0; pids=("${pids[@]:1}"); }
done
for p in "${pids[@]}"; do wait $p || ok=0; done
[ $ok = 1 ] || { echo "module does not compile"; exit 4; }
g++ -shared -fopenmp "$w"/*.o -o "$w/tinymesh.so" -Wl,--unresolved-symbols=ignore-all || exit 4
cd "$w" && timeout 120 /usr/bin/python3 "$here/demo.py" "$w"
'''
BUGS = [
 dict(id="fairing-later-steps", property="C29", needs="more than one iteration of implicit fairing",
  what_it_breaks="iterations after the first use half the strength, so two iterations differ from two calls of one",
  more=FILT, edits=[(S, "        SparseMatrix A = I - epsilon * K;", "        SparseMatrix A = I - (it == 0 ? epsilon : 0.5 * epsilon) * K;")],
  demo=HEAD + BUMPS + r'''
int main() {
    P p; I t;
    bumpy(6, 4, p, t);
    Mesh a(p, t), b(p, t);
    implicitFairing(a, 1.0, 2);
    implicitFairing(b, 1.0, 1);
    implicitFairing(b, 1.0, 1);
    REQUIRE(apart(a, b) < 1e-3);
    return 0;
}
'''),
 dict(id="filter-fixed-width", property="C30", needs="a mesh whose mean edge length is far from one",
  what_it_breaks="the width of the Gaussian is an absolute length instead of a multiple of the mean edge length",
  more=FILT, edits=[(DN, "K(d, sigma * avgEdge) * areas[j];", "K(d, sigma) * areas[j];")],
  demo=HEAD + BUMPS + r'''
int main() {
    P p, q; I t;
    bumpy(8, 5, p, t);
    for (auto &x : p) q.push_back(x * 8.0);
    Mesh a(p, t), b(q, t);
    denoiseNormalGaussian(a, 0.8, 1);
    denoiseNormalGaussian(b, 0.8, 1);
    REQUIRE(apart(a, b, 8.0) < 1e-6);
    return 0;
}
'''),
 dict(id="coherent-small-hole", property="C31", needs="a mesh with a larger hole and one of a single missing triangle",
  what_it_breaks="a hole of three edges is left open",
  more=COH, edits=[(B + "restore/completion.cpp", "        if (f->isHole()) {\n            holeFillAdvancingFront(mesh, f);", "        if (f->isHole() && f->numCorners() > 3) {\n            holeFillAdvancingFront(mesh, f);")],
  demo=HEAD + r'''
#include "restore/restore.h"
int main() {
    int r = outcome([&] {
        P p; I t;
        ball(18, 17, p, t);
        for (auto &q : p) q = q * (1.0 + 0.02 * rnd());
        drop(t, { 0, 1, 2, 3, 4, 300 });
        Mesh m(p, t);
        std::freopen("/dev/null", "w", stdout);
        holeFillContextCoherent(m, 3);
        for (int i = 0; i < (int)m.numFaces(); i++)
            if (m.face(i)->isHole()) _exit(3);
        for (int i = 0; i < (int)m.numHalfedges(); i++)
            if (m.halfedge(i)->isBoundary()) _exit(3);
    });
    REQUIRE(r == 0);
    return 0;
}
'''),
 dict(id="lines-third-edge", property="C32", needs="a triangle whose only edge with a change of sign is the one from its last to its first corner",
  what_it_breaks="the third edge of a triangle is not looked at, so the features depend on the corner a triangle starts with",
  more=FIELD, edits=[(X, "        const int rv2 = checkRV(vs[2], vs[0]);", "        const int rv2 = checkRV(vs[2], vs[1]);")],
  demo=HEAD + r'''
#include "ops/ops.h"
int main() {
    int differ = 0;
    for (int k = 0; k < 10; k++) {
        P p; I t, u;
        ball(9, 5, p, t);
        for (auto &q : p) q = Vec3(q.x() * (1.0 + 0.2 * rnd()), q.y() * 1.5, q.z() * (1.0 + 0.2 * rnd()));
        // all triangles turned by one corner; the vertices keep their numbers by a second list
        for (size_t i = 0; i < t.size(); i += 3) u.insert(u.end(), { t[i + 1], t[i + 2], t[i] });
        Mesh a(p, t), b(p, u);
        auto fa = std::get<1>(getFeatureLineFieldWithFlags(a, false)), fb = std::get<1>(getFeatureLineFieldWithFlags(b, false));
        for (int i = 0; i < (int)a.numVertices(); i++)
            for (int j = 0; j < (int)b.numVertices(); j++)
                if (length(a.vertex(i)->pos() - b.vertex(j)->pos()) == 0.0 && fa(i) != fb(j)) differ++;
    }
    REQUIRE(differ == 0);
    return 0;
}
'''),
 dict(id="python-sigmas-crossed", property="C33", needs="the bilateral filter called from Python with its widths given by name",
  what_it_breaks="the names of the two widths are exchanged",
  edits=[("src/pybind11.cpp", 'py::arg("sigma_c") = 0.2, py::arg("sigma_s") = 0.1', 'py::arg("sigma_s") = 0.2, py::arg("sigma_c") = 0.1')],
  script=PYTHON, python=r'''
import sys
sys.path.insert(0, sys.argv[1])
import math, random
import tinymesh as tm
random.seed(3)
with open("in.obj", "w") as f:
    n, m = 7, 5
    for i in range(n):
        for j in range(m):
            a, b, r = 2 * math.pi * i / n, 2 * math.pi * j / m, 0.4 + 0.1 * random.random()
            f.write("v %f %f %f\n" % ((1 + r * math.cos(b)) * math.cos(a), (1 + r * math.cos(b)) * math.sin(a), r * math.sin(b)))
    at = lambda i, j: (i % n) * m + j % m + 1
    for i in range(n):
        for j in range(m):
            f.write("f %d %d %d\nf %d %d %d\n" % (at(i, j), at(i + 1, j), at(i, j + 1), at(i, j + 1), at(i + 1, j), at(i + 1, j + 1)))
def run(name, *a, **k):
    x = tm.Mesh("in.obj")
    tm.denoise_normal_bilateral(x, *a, **k)
    x.save(name)
    return open(name).read()
p = run("a.obj", 0.6, 0.15, 2)
sys.exit(0 if p == run("b.obj", sigma_c=0.6, sigma_s=0.15, iterations=2) and p == run("c.obj", 0.6, sigma_s=0.15, iterations=2) else 1)
'''),
 dict(id="python-lock-state", property="C33", needs="a locked vertex inside of the surface, looked at from Python",
  what_it_breaks="a vertex says it is locked if it is on the boundary",
  edits=[("src/pybind11.cpp", '        .def("is_locked", &Vertex::isLocked)', '        .def("is_locked", &Vertex::isBoundary)')],
  script=PYTHON, python=r'''
import sys
sys.path.insert(0, sys.argv[1])
import tinymesh as tm
open("in.obj", "w").write("v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nf 1 3 2\nf 1 2 4\nf 2 3 4\n")
m = tm.Mesh("in.obj")
for i in range(4):
    v = m.vertex(i)
    if v.is_locked(): sys.exit(1)
    v.lock()
    if not v.is_locked(): sys.exit(1)
    v.unlock()
    if v.is_locked(): sys.exit(1)
'''),
 dict(id="l0-stops-early", property="C34", needs="L0 denoising with a large second weight, so that there are few rounds",
  what_it_breaks="the last round is left out",
  more=FILT, edits=[(DN, "    while (beta < bmax) {", "    while (beta * mu < bmax) {")],
  demo=HEAD + BUMPS + r'''
int main() {
    P p; I t;
    bumpy(6, 4, p, t);
    Mesh a(p, t), b(p, t), c(p, t);
    denoiseL0Smooth(a, 0.1, 800.0);
    REQUIRE(apart(a, b) > 1e-3);
    denoiseL0Smooth(c, 0.1, 1000.0);
    REQUIRE(apart(c, b) == 0.0);
    return 0;
}
'''),
 dict(id="l0-weights-crossed", property="C34", needs="two triangles of different size at an edge",
  what_it_breaks="the smaller triangle of an edge counts like the larger one, so the surface drifts",
  more=FILT, edits=[(DN, "            const double coef2 = S134 / (S123 + S134);", "            const double coef2 = S123 / (S123 + S134);")],
  demo=HEAD + BUMPS + r'''
int main() {
    P p; I t;
    bumpy(7, 4, p, t);
    for (auto &q : p) q = q + Vec3(3.0, -2.0, 1.0);
    Mesh a(p, t);
    Vec3 x(0.0), y(0.0);
    for (int i = 0; i < (int)a.numVertices(); i++) x += a.vertex(i)->pos();
    denoiseL0Smooth(a, 0.1, 10.0);
    for (int i = 0; i < (int)a.numVertices(); i++) y += a.vertex(i)->pos();
    REQUIRE(length(x - y) < 1e-4);
    return 0;
}
'''),
 dict(id="simplify-error-of-one-end", property="C35", needs="simplification of a curved surface",
  what_it_breaks="edges are ordered by the error at their first end only, so dear edges are merged early",
  more=["remesh/simplify.cpp"], edits=[(B + "remesh/simplify.cpp", "((m1 + m2) * v_bar)", "(m1 * v_bar)")],
  demo=HEAD + QEM + r'''
int main() {
    int n = 0, worst = 0;
    for (int round = 0; round < 40; round++) {
        P p; I t;
        ball(8, 5, p, t);
        for (auto &q : p) q = q * (1.0 + 0.1 * rnd());
        int a, b; Vec3 x;
        if (!merge(p, t, a, b, x)) continue;
        Mesh m(p, t);
        Planes q = planes(m);
        // no other edge is cheaper, but for those that cannot be merged
        int cheaper = 0;
        for (int i = 0; i < (int)m.numHalfedges(); i++) {
            const Vertex *u = m.halfedge(i)->src(), *v = m.halfedge(i)->dst();
            if (u->degree() < 4 || v->degree() < 4) continue;
            cheaper += lowest(q[u->index()], q[v->index()]) < 0.999 * err(q[a], q[b], x);
        }
        worst += cheaper;
        n++;
    }
    REQUIRE(n > 20);
    REQUIRE(worst <= 10);     // counts both directions of an edge
    return 0;
}
'''),
 dict(id="simplify-middle-of-edge", property="C35", needs="simplification of a gently curved surface",
  what_it_breaks="the merged vertex is put in the middle of the edge although there is a better point",
  more=["remesh/simplify.cpp"], edits=[(B + "remesh/simplify.cpp", "D < 1.0e-8", "D < 1.0")],
  demo=HEAD + QEM + r'''
int main() {
    int n = 0;
    for (int round = 0; round < 40; round++) {
        P p; I t;
        ball(10, 7, p, t);
        for (auto &q : p) q = q * (1.0 + 0.01 * rnd());
        int a, b; Vec3 x;
        if (!merge(p, t, a, b, x)) continue;
        REQUIRE(least(planes(Mesh(p, t)), a, b, x));
        n++;
    }
    REQUIRE(n > 20);
    return 0;
}
'''),
 dict(id="simplify-counts-rim", property="C35", needs="simplification of a surface with boundary",
  what_it_breaks="triangles at the boundary pull merged vertices towards their planes",
  more=["remesh/simplify.cpp"], edits=[(B + "remesh/simplify.cpp", "            if (f->isBoundary()) {\n                continue;", "            if (f->isHole()) {\n                continue;")],
  demo=HEAD + QEM + r'''
int main() {
    int n = 0;
    for (int round = 0; round < 60; round++) {
        // a bumpy sheet
        P p; I t;
        const int k = 5;
        for (int i = 0; i <= k; i++)
            for (int j = 0; j <= k; j++) p.push_back(Vec3(i, j, 0.6 * rnd()));
        for (int i = 0; i < k; i++)
            for (int j = 0; j < k; j++) {
                const uint32_t a = i * (k + 1) + j, b = a + k + 1, c = b + 1, d = a + 1;
                for (uint32_t x : { a, b, c, a, c, d }) t.push_back(x);
            }
        int a, b; Vec3 x;
        if (!merge(p, t, a, b, x)) continue;
        REQUIRE(least(planes(Mesh(p, t)), a, b, x));
        n++;
    }
    REQUIRE(n > 20);
    return 0;
}
'''),
]
