// Filters under every schedule: the parallel loops of the library are run by
// a scheduler of ours (threads are coroutines), memory accesses inside them
// are observed through the compiler's race-detection hooks.
//   par OUT SEED COUNT
#include "common.h"
#include "filters/filters.h"
#include <sys/mman.h>
#include <ucontext.h>

static Log out;

// --------------------------------------------------------------- scheduler
struct Cell {
    uint64_t reads = 0, writes = 0;  // threads (up to 64) that read / wrote the 8 bytes
};
struct Co {
    ucontext_t c;
    char *stack = nullptr;
    bool done = false;
};
static const size_t STACK = 512 * 1024;
static bool active = false;     // inside an emulated region
static bool recording = false;  // note accesses
static bool switching = false;  // switch threads at conflicting accesses
static int nthreads = 0;        // emulated threads, 0: no emulation
static int me = 0;
static bool inhook = false;
static std::vector<Co> cos_;
static ucontext_t mainc;
static std::unordered_map<uintptr_t, Cell> *cells = nullptr;
static std::set<uintptr_t> *hot = nullptr;
static Rng *sched = nullptr;
static void (*body)(void *);
static void *bodyData;
static int regions = 0, conflicts = 0, switches = 0;
static std::vector<std::string> *foot = nullptr;
static std::map<void *, bool> *locks = nullptr;
static int arrived = 0, generation = 0;
static long nextStart = 0, nextEnd = 0, nextIncr = 1, nextChunk = 1;

static void yieldTo() {
    // some other thread that is not done
    std::vector<int> c;
    for (int i = 0; i < (int)cos_.size(); i++)
        if (!cos_[i].done && i != me) c.push_back(i);
    if (c.empty()) return;
    int from = me;
    me = c[sched->upto((int)c.size())];
    switches++;
    swapcontext(&cos_[from].c, &cos_[me].c);
}

static void touch(uintptr_t a, size_t n, bool write) {
    if (!active || inhook) return;
    inhook = true;
    bool sw = false;
    for (uintptr_t p = a >> 3; p <= (a + n - 1) >> 3; p++) {
        // own stack
        uintptr_t s = (uintptr_t)cos_[me].stack >> 3;
        if (p >= s && p < s + STACK / 8) continue;
        if (recording) {
            Cell &c = (*cells)[p];
            if (write) c.writes |= 1ull << me;
            else c.reads |= 1ull << me;
        }
        if (switching && hot->count(p)) sw = true;
    }
    inhook = false;
    if (sw && sched->chance(1, 2)) yieldTo();
}

static void entry() {
    body(bodyData);
    cos_[me].done = true;
    for (;;) {
        std::vector<int> c;
        for (int i = 0; i < (int)cos_.size(); i++)
            if (!cos_[i].done) c.push_back(i);
        int from = me;
        if (c.empty()) {
            swapcontext(&cos_[from].c, &mainc);
        } else {
            me = recording ? c[0] : c[sched->upto((int)c.size())];
            swapcontext(&cos_[from].c, &cos_[me].c);
        }
    }
}

// between two barriers: what the threads shared
static void flush() {
    if (!recording) return;
    const bool h = inhook;
    inhook = true;
    regions++;
    std::map<uintptr_t, int> id;
    std::vector<std::vector<int>> rd(nthreads), wr(nthreads);
    for (auto &kv : *cells) {
        uint64_t all = kv.second.reads | kv.second.writes;
        if ((all & (all - 1)) == 0) continue;  // one thread only
        int k = (int)id.size();
        id[kv.first] = k;
        if (kv.second.writes) {
            conflicts++;
            hot->insert(kv.first);
        }
        for (int t = 0; t < nthreads; t++) {
            if (kv.second.reads >> t & 1) rd[t].push_back(k);
            if (kv.second.writes >> t & 1) wr[t].push_back(k);
        }
    }
    foot->push_back("{\"r\":" + jarr2(rd) + ",\"w\":" + jarr2(wr) + "}");
    cells->clear();
    inhook = h;
}

static void region(void (*fn)(void *), void *data) {
    body = fn;
    bodyData = data;
    cos_.resize(nthreads);
    for (auto &c : cos_) {
        if (!c.stack) c.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        c.done = false;
        getcontext(&c.c);
        c.c.uc_stack.ss_sp = c.stack;
        c.c.uc_stack.ss_size = STACK;
        c.c.uc_link = &mainc;
        makecontext(&c.c, entry, 0);
    }
    cells->clear();
    arrived = 0;
    me = recording ? 0 : sched->upto(nthreads);
    active = true;
    swapcontext(&mainc, &cos_[me].c);
    active = false;
    flush();
}

extern "C" {
void __real_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags);
int __real_omp_get_num_threads();
int __real_omp_get_thread_num();
int __real_omp_get_max_threads();
void __real_GOMP_critical_start();
void __real_GOMP_critical_end();
void __real_GOMP_critical_name_start(void **);
void __real_GOMP_critical_name_end(void **);
void __real_GOMP_atomic_start();
void __real_GOMP_atomic_end();
void __real_GOMP_barrier();

int __wrap_omp_get_num_threads() {
    return active ? nthreads : __real_omp_get_num_threads();
}
int __wrap_omp_get_max_threads() {
    return nthreads > 0 ? nthreads : __real_omp_get_max_threads();
}
int __wrap_omp_get_thread_num() {
    return active ? me : __real_omp_get_thread_num();
}
static void take(void *l) {
    while ((*locks)[l]) yieldTo();
    (*locks)[l] = true;
}
static char lkCritical, lkAtomic;
void __wrap_GOMP_critical_start() { active ? take(&lkCritical) : __real_GOMP_critical_start(); }
void __wrap_GOMP_critical_end() { active ? (void)((*locks)[&lkCritical] = false) : __real_GOMP_critical_end(); }
void __wrap_GOMP_atomic_start() { active ? take(&lkAtomic) : __real_GOMP_atomic_start(); }
void __wrap_GOMP_atomic_end() { active ? (void)((*locks)[&lkAtomic] = false) : __real_GOMP_atomic_end(); }
void __wrap_GOMP_critical_name_start(void **p) { active ? take(p) : __real_GOMP_critical_name_start(p); }
void __wrap_GOMP_critical_name_end(void **p) { active ? (void)((*locks)[p] = false) : __real_GOMP_critical_name_end(p); }
void __wrap_GOMP_barrier() {
    if (!active) return __real_GOMP_barrier();
    const int g = generation;
    if (++arrived == nthreads) {
        arrived = 0;
        generation++;
        flush();
    } else
        while (generation == g) yieldTo();
}
static bool more(long *s, long *e) {
    if (nextIncr > 0 ? nextStart >= nextEnd : nextStart <= nextEnd) return false;
    *s = nextStart;
    nextStart += nextChunk * nextIncr;
    if (nextIncr > 0 ? nextStart > nextEnd : nextStart < nextEnd) nextStart = nextEnd;
    *e = nextStart;
    return true;
}
#define LOOP(kind)                                                                                                         \
    bool __real_GOMP_loop_##kind##_next(long *s, long *e);                                                                 \
    bool __wrap_GOMP_loop_##kind##_next(long *s, long *e) { return active ? more(s, e) : __real_GOMP_loop_##kind##_next(s, e); } \
    void __real_GOMP_parallel_loop_##kind(void (*)(void *), void *, unsigned, long, long, long, long, unsigned);           \
    void __wrap_GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
        if (nthreads == 0 || active) return __real_GOMP_parallel_loop_##kind(fn, d, n, s, e, i, c, f);                     \
        nextStart = s; nextEnd = e; nextIncr = i; nextChunk = c > 0 ? c : 1;                                               \
        region(fn, d);                                                                                                     \
    }
void __real_GOMP_loop_end_nowait();
void __wrap_GOMP_loop_end_nowait() { if (!active) __real_GOMP_loop_end_nowait(); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    if (nthreads == 0 || active) return __real_GOMP_parallel(fn, data, n, flags);
    region(fn, data);
}

#define HOOK(n)                                                                                   \
    void __tsan_read##n(void *p) { touch((uintptr_t)p, n, false); }                               \
    void __tsan_write##n(void *p) { touch((uintptr_t)p, n, true); }                               \
    void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, false); }                     \
    void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, true); }                     \
    void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, false); }                      \
    void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, true); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { touch((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { touch((uintptr_t)p, 8, false); }
void __tsan_read_range(void *p, size_t n) { if (n) touch((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) touch((uintptr_t)p, n, true); }
#define ATOM(b, T)                                                                                                       \
    T __tsan_atomic##b##_load(const volatile T *p, int) { touch((uintptr_t)p, sizeof(T), false); return *p; }            \
    void __tsan_atomic##b##_store(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); *p = v; }             \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) {                                 \
        touch((uintptr_t)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }                   \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) {                                   \
        touch((uintptr_t)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }                   \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) {                                       \
        touch((uintptr_t)p, sizeof(T), true); T o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
}

// fresh memory has no history
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (active && recording && !inhook) {
        inhook = true;
        for (uintptr_t a = (uintptr_t)p >> 3; a <= ((uintptr_t)p + n) >> 3; a++) cells->erase(a);
        inhook = false;
    }
    return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------- runs
static const char *NAMES[] = { "laplacian", "cotangent", "taubin", "fairing", "gaussian", "bilateral", "l0" };

static void filter(Mesh &m, int kind, int iters, double a) {
    switch (kind) {
    case 0: tinymesh::smoothLaplacian(m, a, false, iters); break;
    case 1: tinymesh::smoothLaplacian(m, a, true, iters); break;
    case 2: tinymesh::smoothTaubin(m, a, a + 0.03, iters); break;
    case 3: tinymesh::implicitFairing(m, a, 1); break;
    case 4: tinymesh::denoiseNormalGaussian(m, 0.2 + a, iters); break;
    case 5: tinymesh::denoiseNormalBilateral(m, 0.2 + a, 0.1 + a, iters); break;
    case 6: tinymesh::denoiseL0Smooth(m, 0.1, 1.0e-1); break;
    }
}

static std::string bits(const Mesh &m) {
    std::string r;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        Vec3 p = m.vertex(i)->pos();
        for (int k = 0; k < 3; k++) {
            double x = p[k];
            r.append((const char *)&x, sizeof x);
        }
    }
    return r;
}

static void one(uint64_t seed) {
    Rng g(seed);
    int kind = g.upto(7);
    bool closed = kind >= 4;
    static const int ck[] = { 0, 1, 2, 4, 7, 13, 8 };
    Shape s = randomShape(g, closed ? ck[g.upto(7)] : -1);
    int iters = g.range(1, 2);
    double a = g.range(1, 9) / 10.0;
    std::vector<int> lock;
    for (size_t i = 0; i < s.p.size(); i++)
        if (g.chance(1, 8)) lock.push_back((int)i);
    std::map<std::string, int> tok;
    std::vector<int> runs;
    locks = new std::map<void *, bool>();
    cells = new std::unordered_map<uintptr_t, Cell>();
    hot = new std::set<uintptr_t>();
    foot = new std::vector<std::string>();
    std::vector<std::vector<char>> waste;
    sched = &g;
    // one mesh, run under many schedules from the same positions
    Mesh m(s.verts(), s.idx());
    for (int v : lock)
        if (v < (int)m.numVertices()) m.vertex(v)->lock();
    std::vector<Vec3> p0;
    for (int i = 0; i < (int)m.numVertices(); i++) p0.push_back(m.vertex(i)->pos());
    const int nmax = std::min(48, std::max((int)m.numVertices(), (int)m.numFaces()));
    auto reset = [&](Mesh &x) {
        for (int i = 0; i < (int)x.numVertices(); i++) x.vertex(i)->setPos(p0[i]);
    };
    auto note = [&](Mesh &x) { runs.push_back(tok.emplace(bits(x), (int)tok.size()).first->second); };
    nthreads = 0;
    filter(m, kind, iters, a);
    note(m);
    calling("C15");  // from here on a failure is one of the schedule
    // every iteration its own thread (as far as they go), accesses recorded
    reset(m);
    nthreads = nmax;
    recording = true;
    filter(m, kind, iters, a);
    note(m);
    recording = false;
    // other numbers of threads and orders; switches at shared memory
    switching = !hot->empty();
    for (int k = 0; k < 10; k++) {
        reset(m);
        static const int ns[] = { 2, 3, 4, 5, 7, 8 };
        nthreads = k % 3 == 2 ? nmax : ns[g.upto(6)];
        filter(m, kind, iters, a);
        note(m);
    }
    switching = false;
    nthreads = 0;
    // equal meshes elsewhere in memory
    for (int k = 0; k < 3; k++) {
        for (int w = 0; w < g.upto(20); w++) waste.emplace_back(g.range(1, 400));
        Mesh x(s.verts(), s.idx());
        for (int v : lock)
            if (v < (int)x.numVertices()) x.vertex(v)->lock();
        filter(x, kind, iters, a);
        note(x);
    }
    calling("");
    std::string f = "[";
    const bool small = (int)m.numVertices() <= 14;
    for (size_t k = 0; small && k < foot->size() && k < 4; k++) f += (k ? "," : "") + (*foot)[k];
    f += "]";
    out.line(J().str("op", "par").str("filter", NAMES[kind]).i("nv", (long long)m.numVertices()).i("regions", regions).i("shared", conflicts)
                 .i("switches", switches).raw("runs", jarr(runs)).raw("foot", f).done());
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] { one(hs); }, 60);
        out.line(J().str("op", "end").str("res", res).str("blame", currentCall()).i("hist", i).done());
    }
    return 0;
}
