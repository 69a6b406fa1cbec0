// The C++ interface behind plain C functions, for comparison with the Python
// module from within Python.  Optional arguments are passed as far as given
// (n of them), the others are left to the defaults of the C++ headers.
#include <cstdint>
#include <string>
#include <vector>
#include "tinymesh.h"
using namespace tinymesh;

static std::string message;
static std::vector<double> out;

template <typename F>
static int guard(F f) {
    message.clear();
    try {
        f();
        return 0;
    } catch (std::exception &e) {
        message = e.what();
        return 1;
    }
}
static void put(double x) { out.push_back(x); }
static void put(const Vec3 &v) { for (int k = 0; k < 3; k++) put(v[k]); }
static void putv(const EigenVector &v) {
    put((double)v.size());
    for (int i = 0; i < v.size(); i++) put(v(i));
}
static void putm(const EigenMatrix &m) {
    put((double)m.rows());
    put((double)m.cols());
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++) put(m(i, j));
}

extern "C" {
const char *ref_message() { return message.c_str(); }
const double *ref_out(int *n) {
    *n = (int)out.size();
    return out.data();
}
void *ref_new(const double *p, int np, const uint32_t *idx, int ni) {
    void *r = nullptr;
    guard([&] {
        std::vector<Vec3> v;
        for (int i = 0; i < np; i++) v.push_back(Vec3(p[3 * i], p[3 * i + 1], p[3 * i + 2]));
        r = new Mesh(v, std::vector<uint32_t>(idx, idx + ni));
    });
    return r;
}
void *ref_open(const char *path) {
    void *r = nullptr;
    guard([&] { r = path[0] ? new Mesh(std::string(path)) : new Mesh(); });
    return r;
}
void *ref_clone(void *m) {
    void *r = nullptr;
    guard([&] { r = new Mesh(((Mesh *)m)->clone()); });
    return r;
}
int ref_file(void *m, const char *path, int save) {
    return guard([&] { save ? ((Mesh *)m)->save(path) : ((Mesh *)m)->load(path); });
}
int ref_state(void *p) {
    out.clear();
    return guard([&] {
        Mesh &m = *(Mesh *)p;
        put(m.numVertices());
        put(m.numEdges());
        put(m.numHalfedges());
        put(m.numFaces());
        for (auto &v : m.getVertices()) put(v);
        for (auto i : m.getVertexIndices()) put(i);
        for (int i = 0; i < (int)m.numVertices(); i++) put(m.vertex(i)->isBoundary() + 2 * m.vertex(i)->isLocked());
        for (int i = 0; i < (int)m.numFaces(); i++) put(m.face(i)->isHole() + 2 * m.face(i)->isLocked());
    });
}
// one vertex or face, one method
int ref_part(void *p, int face, int i, const char *method, const double *a) {
    out.clear();
    return guard([&] {
        Mesh &m = *(Mesh *)p;
        const std::string f = method;
        if (face) {
            Face *q = m.face(i);
            if (f == "area") put(q->area());
            else if (f == "is_boundary") put(q->isBoundary());
            else if (f == "is_hole") put(q->isHole());
            else if (f == "is_locked") put(q->isLocked());
            else throw std::logic_error("no such method");
        } else {
            Vertex *q = m.vertex(i);
            if (f == "pos") put(q->pos());
            else if (f == "set_pos") q->setPos(Vec3(a[0], a[1], a[2]));
            else if (f == "normal") put(q->normal());
            else if (f == "K") put(q->K());
            else if (f == "H") put(q->H());
            else if (f == "is_boundary") put(q->isBoundary());
            else if (f == "is_locked") put(q->isLocked());
            else if (f == "lock") q->lock();
            else if (f == "unlock") q->unlock();
            else throw std::logic_error("no such method");
        }
    });
}
int ref_call(const char *name, void *p, void *other, int face, const double *a, int n) {
    out.clear();
    return guard([&] {
        Mesh &m = *(Mesh *)p;
        const std::string f = name;
        if (f == "smooth_laplacian") {
            n == 0 ? smoothLaplacian(m) : n == 1 ? smoothLaplacian(m, a[0]) : n == 2 ? smoothLaplacian(m, a[0], a[1] != 0)
                   : smoothLaplacian(m, a[0], a[1] != 0, (int)a[2]);
        } else if (f == "smooth_taubin") {
            n == 0 ? smoothTaubin(m) : n == 1 ? smoothTaubin(m, a[0]) : n == 2 ? smoothTaubin(m, a[0], a[1])
                   : smoothTaubin(m, a[0], a[1], (int)a[2]);
        } else if (f == "implicit_fairing") {
            n == 0 ? implicitFairing(m) : n == 1 ? implicitFairing(m, a[0]) : implicitFairing(m, a[0], (int)a[1]);
        } else if (f == "denoise_normal_gaussian") {
            n == 0 ? denoiseNormalGaussian(m) : n == 1 ? denoiseNormalGaussian(m, a[0]) : denoiseNormalGaussian(m, a[0], (int)a[1]);
        } else if (f == "denoise_normal_bilateral") {
            n == 0 ? denoiseNormalBilateral(m) : n == 1 ? denoiseNormalBilateral(m, a[0])
                : n == 2 ? denoiseNormalBilateral(m, a[0], a[1]) : denoiseNormalBilateral(m, a[0], a[1], (int)a[2]);
        } else if (f == "denoise_l0_smooth") {
            n == 0 ? denoiseL0Smooth(m) : n == 1 ? denoiseL0Smooth(m, a[0]) : denoiseL0Smooth(m, a[0], a[1]);
        } else if (f == "remesh_triangular") {
            n == 0 ? remeshTriangular(m) : n == 1 ? remeshTriangular(m, a[0]) : n == 2 ? remeshTriangular(m, a[0], a[1])
                : n == 3 ? remeshTriangular(m, a[0], a[1], a[2]) : n == 4 ? remeshTriangular(m, a[0], a[1], a[2], (int)a[3])
                : remeshTriangular(m, a[0], a[1], a[2], (int)a[3], a[4] != 0);
        } else if (f == "simplify_qem") {
            n == 1 ? simplifyQEM(m, (int)a[0]) : n == 2 ? simplifyQEM(m, (int)a[0], (int)a[1])
                   : simplifyQEM(m, (int)a[0], (int)a[1], a[2] != 0);
        } else if (f == "hole_fill_min_dihedral") {
            n == 0 ? holeFillMinDihedral(m, m.face(face)) : holeFillMinDihedral(m, m.face(face), a[0]);
        } else if (f == "hole_fill_advancing_front") {
            holeFillAdvancingFront(m, m.face(face));
        } else if (f == "hole_fill_context_coherent") {
            n == 0 ? holeFillContextCoherent(m) : holeFillContextCoherent(m, (int)a[0]);
        } else if (f == "fill_holes") {
            m.fillHoles();
        } else if (f == "verify") {
            put(m.verify());
        } else if (f == "get_hausdorff_distance") {
            put(getHausdorffDistance(m, *(Mesh *)other));
        } else if (f == "get_per_vertex_shortest_distances") {
            putv(getPerVertexShortestDistances(m, *(Mesh *)other));
        } else if (f == "get_mesh_laplacian") {
            EigenSparseMatrix L = getMeshLaplacian(m, (MeshLaplace)(int)a[0]);
            putm(EigenMatrix(L));
        } else if (f == "get_heat_kernel_signatures") {
            // the matrix is the cotangent Laplacian of the mesh
            EigenSparseMatrix L = getMeshLaplacian(m, MeshLaplace::Cotangent);
            putm(n == 0 ? getHeatKernelSignatures(L) : n == 1 ? getHeatKernelSignatures(L, (int)a[0])
                                                              : getHeatKernelSignatures(L, (int)a[0], (int)a[1]));
        } else if (f == "get_principal_curvatures") {
            auto t = n == 0 ? getPrincipalCurvatures(m) : getPrincipalCurvatures(m, a[0] != 0);
            putv(std::get<0>(t)), putv(std::get<1>(t)), putm(std::get<2>(t)), putm(std::get<3>(t));
        } else if (f == "get_principal_curvatures_with_derivatives") {
            auto t = n == 0 ? getPrincipalCurvaturesWithDerivatives(m) : getPrincipalCurvaturesWithDerivatives(m, a[0] != 0);
            putv(std::get<0>(t)), putv(std::get<1>(t)), putv(std::get<2>(t)), putv(std::get<3>(t)), putm(std::get<4>(t)), putm(std::get<5>(t));
        } else if (f == "get_feature_line_field") {
            putm(n == 0 ? getFeatureLineField(m) : getFeatureLineField(m, a[0] != 0));
        } else if (f == "get_feature_line_field_with_flags") {
            auto t = n == 0 ? getFeatureLineFieldWithFlags(m) : getFeatureLineFieldWithFlags(m, a[0] != 0);
            putm(std::get<0>(t)), putv(std::get<1>(t));
        } else {
            throw std::logic_error("no such function");
        }
    });
}
}
