// Linked into the Python module with --wrap: notes what arrives at functions
// whose results depend on the order of addresses and cannot be compared.
#include <vector>
#include "tinymesh.h"
using namespace tinymesh;

static std::vector<double> got;
static int which = 0;

extern "C" {
__attribute__((weak)) void __real__ZN8tinymesh16remeshTriangularERNS_4MeshEdddib(Mesh &, double, double, double, int, bool);
__attribute__((weak)) void __real__ZN8tinymesh11simplifyQEMERNS_4MeshEiib(Mesh &, int, int, bool);
__attribute__((weak)) void __real__ZN8tinymesh22holeFillAdvancingFrontERNS_4MeshEPNS_4FaceE(Mesh &, Face *);
__attribute__((weak)) void __real__ZN8tinymesh23holeFillContextCoherentERNS_4MeshEi(Mesh &, int);

void __wrap__ZN8tinymesh16remeshTriangularERNS_4MeshEdddib(Mesh &m, double a, double b, double c, int n, bool v) {
    which = 1;
    got = { a, b, c, (double)n, (double)v };
    __real__ZN8tinymesh16remeshTriangularERNS_4MeshEdddib(m, a, b, c, n, v);
}
void __wrap__ZN8tinymesh11simplifyQEMERNS_4MeshEiib(Mesh &m, int t, int n, bool v) {
    which = 2;
    got = { (double)t, (double)n, (double)v };
    __real__ZN8tinymesh11simplifyQEMERNS_4MeshEiib(m, t, n, v);
}
void __wrap__ZN8tinymesh22holeFillAdvancingFrontERNS_4MeshEPNS_4FaceE(Mesh &m, Face *f) {
    which = 3;
    got = { (double)f->index() };
    __real__ZN8tinymesh22holeFillAdvancingFrontERNS_4MeshEPNS_4FaceE(m, f);
}
void __wrap__ZN8tinymesh23holeFillContextCoherentERNS_4MeshEi(Mesh &m, int n) {
    which = 4;
    got = { (double)n };
    __real__ZN8tinymesh23holeFillContextCoherentERNS_4MeshEi(m, n);
}
int py_has(int w) {
    return w == 1 ? !!__real__ZN8tinymesh16remeshTriangularERNS_4MeshEdddib
         : w == 2 ? !!__real__ZN8tinymesh11simplifyQEMERNS_4MeshEiib
         : w == 3 ? !!__real__ZN8tinymesh22holeFillAdvancingFrontERNS_4MeshEPNS_4FaceE
                  : !!__real__ZN8tinymesh23holeFillContextCoherentERNS_4MeshEi;
}
int py_got(double *a, int *n) {
    int w = which;
    *n = (int)got.size();
    for (size_t i = 0; i < got.size(); i++) a[i] = got[i];
    which = 0;
    got.clear();
    return w;
}
}
