// Random programs on variables that hold vectors and boxes.
//   vec OUT SEED COUNT
#include "common.h"
#include "core/vec.h"
#include "core/bounds.h"
#include <unordered_set>

static Log out;
static const int Q = 16, TOP = 100 * Q;
static const int ODD = 777777777;
static int code(long double v) {
    if (v >= 1e19L) return 1000000000;
    if (v <= -1e19L) return -1000000000;
    const long double s = v * Q;
    if (!(s > -1e8L && s < 1e8L) || s != (long double)(long long)s) return ODD;
    return (int)s;
}
static int rounded(long double v, long double unit) {
    const long double s = v * unit;
    if (!(s > -2e9L && s < 2e9L)) return ODD;
    return (int)floorl(s + 0.5L);
}
using Ints = std::vector<int>;

template <typename F, int N>
struct Machine {
    using V = Vec<F, N>;
    using B = tinymesh::Bounds<F, N>;
    std::vector<std::unique_ptr<V>> r;
    std::vector<std::unique_ptr<B>> b;
    Rng &g;

    static Ints value(const V &v) {
        Ints x;
        for (int k = 0; k < N; k++) x.push_back(code(v[k]));
        return x;
    }
    static V of(const Ints &x) {
        V v;
        for (int k = 0; k < N; k++) v[k] = (F)x[k] / Q;
        return v;
    }
    std::string regs() const {
        std::vector<Ints> a;
        for (auto &p : r) a.push_back(value(*p));
        return jarr2(a);
    }
    std::string boxes() const {
        std::vector<std::string> a;
        for (auto &p : b) a.push_back(jstrs({ jarr(value(p->posMin())), jarr(value(p->posMax())) }));
        return jstrs(a);
    }
    void log(J j) {
        out.line(j.raw("regs", regs()).raw("boxes", boxes()).done());
    }
    Ints random() {
        Ints x;
        const int kind = g.upto(4);
        for (int k = 0; k < N; k++)
            x.push_back(kind == 0 ? Q * g.range(-6, 6) : kind == 1 ? g.range(-40, 40) : kind == 2 ? Q * g.range(-1, 1) : Q * g.range(-20, 20) / 4);
        return x;
    }
    Machine(Rng &g) : g(g) {
        for (int k = 0; k < 5; k++) r.push_back(std::make_unique<V>(of(random())));
        for (int k = 0; k < 3; k++) b.push_back(std::make_unique<B>());
        log(J().str("op", "start").i("n", N));
    }
    // whether the result is a small multiple of 1 / Q
    static bool times(int a, int b, long long &z) {
        const long long p = (long long)a * b;
        z = p / Q;
        return p % Q == 0 && std::llabs(z) <= TOP;
    }
    static bool over(int a, int b, long long &z) {
        if (b == 0) return true;
        const long long p = (long long)a * Q;
        z = p / b;
        return p % b == 0 && std::llabs(z) <= TOP;
    }
    bool fits(const std::string &f, const Ints &x, const Ints &y, int s) {
        long long z = 0, w = 0;
        for (int k = 0; k < N; k++) {
            if (f == "add" && std::abs(x[k] + y[k]) > TOP) return false;
            if (f == "sub" && std::abs(x[k] - y[k]) > TOP) return false;
            if ((f == "subs" || f == "ssub") && std::abs(x[k] - s) > TOP) return false;
            if (f == "mul" && !times(x[k], y[k], z)) return false;
            if (f == "div" && !over(x[k], y[k], z)) return false;
            if (f == "scale" && !times(x[k], s, z)) return false;
            if (f == "quot" && !over(x[k], s, z)) return false;
            if (f == "cross")
                for (int l = 0; l < N; l++)
                    if (l != k && (!times(x[k], y[l], z) || !times(x[l], y[k], w) || std::llabs(z - w) > TOP)) return false;
        }
        return true;
    }
    template <int M = N>
    typename std::enable_if<M == 3>::type crossTo(V &d, const V &x, const V &y) {
        d = cross(x, y);
    }
    template <int M = N>
    typename std::enable_if<M != 3>::type crossTo(V &, const V &, const V &) {
    }
    void apply(const std::string &f, V &d, const V &x, const V &y, F s) {
        const bool in = &d == &x && g.chance(1, 2);
        if (f == "add") {
            if (in) d += y;
            else d = x + y;
        } else if (f == "sub") {
            if (in) d -= y;
            else d = x - y;
        } else if (f == "mul") {
            if (in) d *= y;
            else d = x * y;
        } else if (f == "div") {
            if (in) d /= y;
            else d = x / y;
        } else if (f == "min") d = std::min(x, y);
        else if (f == "max") d = std::max(x, y);
        else if (f == "neg") d = -x;
        else if (f == "abs") d = std::abs(x);
        else if (f == "copy") {
            if (g.chance(1, 3)) {
                const V c(x);
                d = c;
            } else if (g.chance(1, 2)) {
                const Eigen::Matrix<F, N, 1> e = x;
                d = V(e);
            } else d = x;
        } else if (f == "subs") d = x - s;
        else if (f == "ssub") d = s - x;
        else if (f == "scale") {
            if (in) d *= s;
            else if (g.chance(1, 2)) d = x * s;
            else d = s * x;
        } else if (f == "quot") {
            if (in) d /= s;
            else d = x / s;
        } else if (f == "cross") crossTo(d, x, y);
        else if (f == "fill") d = V(s);
    }
    void operate() {
        static const char *names[] = { "add", "sub", "mul", "div", "min", "max", "neg", "abs", "copy", "subs", "ssub", "scale", "quot", "cross", "fill" };
        std::string f = names[g.upto(15)];
        if (f == "cross" && N != 3) f = "sub";
        const int x = g.upto(5), y = g.upto(5), d = g.chance(1, 2) ? x : g.upto(5);
        static const int ss[] = { 0, 16, -16, 32, -32, 8, 48, 4, -8 };
        const int s = g.chance(2, 3) ? ss[g.upto(9)] : g.range(-60, 60);
        const Ints vx = value(*r[x]), vy = value(*r[y]);
        if (!fits(f, vx, vy, s)) return;
        bool refuse = f == "quot" && s == 0;
        if (f == "div")
            for (int k : vy) refuse = refuse || k == 0;
        const char *res = "ok";
        calling(f.c_str());
        try {
            if (refuse) {
                V t = *r[x];
                apply(f, t, g.chance(1, 2) ? t : *r[x], *r[y], (F)s / Q);
            } else apply(f, *r[d], *r[x], *r[y], (F)s / Q);
        } catch (const std::exception &) {
            res = "refused";
        }
        calling("");
        log(J().str("op", "op").str("f", f).i("d", d + 1).i("x", x + 1).i("y", y + 1).i("s", s).str("res", res));
    }
    template <int M = N>
    static typename std::enable_if<M == 2, Ints>::type parts(const V &v) {
        return { code(v.x()), code(v.y()) };
    }
    template <int M = N>
    static typename std::enable_if<M == 3, Ints>::type parts(const V &v) {
        return { code(v.x()), code(v.y()), code(v.z()) };
    }
    template <int M = N>
    static typename std::enable_if<M == 4, Ints>::type parts(const V &v) {
        return { code(v.x()), code(v.y()), code(v.z()), code(v.w()) };
    }
    template <int M = N>
    static typename std::enable_if<M == 2, V>::type listed(const Ints &x) {
        return V{ (F)x[0] / Q, (F)x[1] / Q };
    }
    template <int M = N>
    static typename std::enable_if<M == 3, V>::type listed(const Ints &x) {
        return V{ (F)x[0] / Q, (F)x[1] / Q, (F)x[2] / Q };
    }
    template <int M = N>
    static typename std::enable_if<M == 4, V>::type listed(const Ints &x) {
        return V{ (F)x[0] / Q, (F)x[1] / Q, (F)x[2] / Q, (F)x[3] / Q };
    }
    void assign() {
        const int d = g.upto(5);
        if (g.chance(1, 2)) {
            const int k = g.upto(N), s = g.chance(1, 3) ? 0 : Q * g.range(-6, 6);
            (*r[d])[k] = s == 0 && g.chance(1, 2) ? (F)-0.0 : (F)s / Q;
            log(J().str("op", "set").i("d", d + 1).i("k", k + 1).i("s", s));
        } else {
            Ints x = random();
            *r[d] = listed(x);
            log(J().str("op", "list").i("d", d + 1).raw("v", jarr(x)));
        }
    }
    void matrix() {
        const int d = g.upto(5), x = g.upto(5);
        std::vector<Ints> m(N, Ints(N));
        Eigen::Matrix<F, N, N> e;
        const Ints v = value(*r[x]);
        for (int i = 0; i < N; i++) {
            long long sum = 0;
            for (int j = 0; j < N; j++) {
                m[i][j] = Q * g.range(-2, 2);
                e(i, j) = (F)m[i][j] / Q;
                sum += (long long)m[i][j] * v[j] / Q;
            }
            if (std::llabs(sum) > TOP) return;
        }
        *r[d] = e * *r[x];
        log(J().str("op", "mat").i("d", d + 1).i("x", x + 1).raw("m", jarr2(m)));
    }
    void ask() {
        const int x = g.upto(5);
        int y = g.upto(5);
        if (g.chance(1, 3))
            for (int k = 0; k < 5; k++)
                if (k != x && value(*r[k]) == value(*r[x])) y = k;
        const V &a = *r[x], &c = *r[y];
        Ints unit;
        const long double d = (long double)dot(a, c) * Q * Q;
        bool zero = true;
        for (int k : value(a)) zero = zero && k == 0;
        if (!zero) {
            const V u = normalize(a);
            for (int k = 0; k < N; k++) unit.push_back(rounded(u[k], 10000));
        }
        // equal vectors meet in a hashed set
        std::unordered_set<V> met;
        met.insert(a);
        const bool hash = std::hash<V>()(a) == std::hash<V>()(c) && met.count(c) == 1;
        out.line(J().str("op", "ask").i("x", x + 1).i("y", y + 1).i("dot", d == (long double)(long long)d ? (long long)d : ODD)
                     .i("eq", a == c).i("ne", a != c).i("hash", hash).i("len", rounded(length(a), 4 * Q)).raw("unit", jarr(unit))
                     .raw("parts", jarr(parts(a))).done());
    }
    template <int M = N>
    static typename std::enable_if<M == 3, int>::type area(const B &q) {
        const double a = q.area() * Q * Q;
        return a > -2e9 && a < 2e9 ? (int)a : ODD;
    }
    template <int M = N>
    static typename std::enable_if<M != 3, int>::type area(const B &) {
        return 0;
    }
    void box() {
        const int d = g.upto(3);
        switch (g.upto(4)) {
        case 0: {
            const int x = g.upto(5);
            b[d]->merge(*r[x]);
            log(J().str("op", "box").i("d", d + 1).i("x", x + 1));
            break;
        }
        case 1: {
            const int x = g.upto(3), y = g.upto(3);
            *b[d] = B::merge(*b[x], *b[y]);
            log(J().str("op", "join").i("d", d + 1).i("x", x + 1).i("y", y + 1));
            break;
        }
        case 2: {
            const int x = g.upto(5), y = g.upto(5);
            for (int k = 0; k < N; k++)
                if ((*r[x])[k] > (*r[y])[k]) return;
            *b[d] = B(*r[x], *r[y]);
            log(J().str("op", "make").i("d", d + 1).i("x", x + 1).i("y", y + 1));
            break;
        }
        default: {
            const int y = g.upto(5);
            B &q = *b[d];
            const bool none = q.posMin()[0] > q.posMax()[0];
            out.line(J().str("op", "look").i("x", d + 1).i("y", y + 1).i("inside", q.inside(*r[y]))
                         .i("dist", none ? 0 : rounded(q.distance(*r[y]), 4 * Q)).i("area", none ? 0 : area(q))
                         .i("wide", none ? 0 : q.maxExtent()).done());
        }
        }
    }
    void run(int steps) {
        for (int k = 0; k < steps; k++) {
            const int what = g.upto(20);
            if (what < 9) operate();
            else if (what < 11) assign();
            else if (what < 12) matrix();
            else if (what < 15) ask();
            else box();
        }
    }
};
template <typename F>
static void program(Rng &g, int steps) {
    switch (g.upto(3)) {
    case 0: Machine<F, 2>(g).run(steps); break;
    case 1: Machine<F, 3>(g).run(steps); break;
    default: Machine<F, 4>(g).run(steps); break;
    }
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const int n = atoi(argv[3]);
    if (!out.open(argv[1])) return 2;
    for (int i = 0; i < n; i++) {
        const uint64_t hs = seed * 1000003ull + (uint64_t)i;
        const char *res = runChild([&] {
            Rng g(hs);
            switch (g.upto(3)) {
            case 0: program<float>(g, 60); break;
            case 1: program<double>(g, 60); break;
            default: program<long double>(g, 60); break;
            }
        }, 30);
        out.line(J().str("op", "end").str("res", res).str("call", currentCall()).i("hist", i).done());
    }
    return 0;
}
