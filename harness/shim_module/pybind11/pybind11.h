// Stand-in for the one part of pybind11 that the library proper uses (printing), so that the
// build which goes into the Python module can be driven without an interpreter.
#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H
namespace pybind11 {
struct arg {
    explicit arg(const char *) {}
    template <typename T>
    arg &operator=(const T &) { return *this; }
};
template <typename... Args>
void print(Args &&...) {}
}  // namespace pybind11
#endif
