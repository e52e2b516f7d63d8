// C25: documented costs.
#include "../lib/gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <cstdlib>
#include <new>

namespace unc = uncertainties;

// ------------------------------------------------- counting heap allocations

static long g_alloc = 0;
void *operator new(std::size_t n) {
    ++g_alloc;
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

// ------------------------------------------------- counting numeric operations

struct Cnt {
    static long ops;
    double v = 0;
    Cnt() {}
    Cnt(double x): v(x) {}
    Cnt(const Cnt &o): v(o.v) { ++ops; }
    Cnt(Cnt &&o) noexcept: v(o.v) {}
    Cnt &operator=(const Cnt &o) { v = o.v; ++ops; return *this; }
    Cnt &operator=(Cnt &&o) noexcept { v = o.v; return *this; }
    Cnt &operator+=(const Cnt &o) { v += o.v; ++ops; return *this; }
    Cnt &operator-=(const Cnt &o) { v -= o.v; ++ops; return *this; }
    Cnt &operator*=(const Cnt &o) { v *= o.v; ++ops; return *this; }
    Cnt &operator/=(const Cnt &o) { v /= o.v; ++ops; return *this; }
    Cnt operator-() const { ++ops; return Cnt(-v); }
    friend Cnt operator+(const Cnt &a, const Cnt &b) { ++ops; return Cnt(a.v + b.v); }
    friend Cnt operator-(const Cnt &a, const Cnt &b) { ++ops; return Cnt(a.v - b.v); }
    friend Cnt operator*(const Cnt &a, const Cnt &b) { ++ops; return Cnt(a.v * b.v); }
    friend Cnt operator/(const Cnt &a, const Cnt &b) { ++ops; return Cnt(a.v / b.v); }
    friend bool operator<(const Cnt &a, const Cnt &b) { ++ops; return a.v < b.v; }
    friend bool operator>(const Cnt &a, const Cnt &b) { ++ops; return a.v > b.v; }
    friend bool operator<=(const Cnt &a, const Cnt &b) { ++ops; return a.v <= b.v; }
    friend bool operator>=(const Cnt &a, const Cnt &b) { ++ops; return a.v >= b.v; }
    friend bool operator==(const Cnt &a, const Cnt &b) { ++ops; return a.v == b.v; }
    friend bool operator!=(const Cnt &a, const Cnt &b) { ++ops; return a.v != b.v; }
    friend Cnt sqrt(const Cnt &a) { ++ops; return Cnt(std::sqrt(a.v)); }
    friend Cnt abs(const Cnt &a) { ++ops; return Cnt(std::fabs(a.v)); }
};
long Cnt::ops = 0;
using U = unc::UReal<Cnt>;

struct Cost {
    long ops, alloc;
};
template<typename F>
static Cost cost(F f) {
    const long a = Cnt::ops, b = g_alloc;
    f();
    return {Cnt::ops - a, g_alloc - b};
}

// at n and 2n: linear if the increment is about the double, quadratic if 4 times
static void linear(pbt::Case &c, const std::string &what, long n, const Cost &one, const Cost &two) {
    NOTE(c, what << ": " << one.ops << " numeric operations and " << one.alloc << " allocations with " << n << " variables, " << two.ops << " and " << two.alloc << " with " << 2 * n);
    CHECK_THAT(c, two.ops <= 2.8 * one.ops + 100, what << " takes " << one.ops << " numeric operations with " << n << " variables and " << two.ops << " with " << 2 * n);
    CHECK_THAT(c, two.alloc <= 2.8 * one.alloc + 20, what << " takes " << one.alloc << " allocations with " << n << " variables and " << two.alloc << " with " << 2 * n);
    CHECK_THAT(c, one.ops <= 200 * n + 200, what << " takes " << one.ops << " numeric operations with " << n << " variables");
}

static U fresh(int i) { return U(Cnt(1 + i % 7), Cnt(0.1 + i % 3)); }

// a sum of n new variables
static U sum(int n) {
    std::vector<U> x;
    for (int i = 0; i < n; ++i) x.push_back(fresh(i));
    std::vector<Cnt> one(n, Cnt(1));
    return nary(x.begin(), x.end(), Cnt(n), one.begin());
}

LAW(accumulate, 9000, 60000, "accumulating N and 2N terms (independent, or functions of a few variables) with += and -=: the number of numeric operations and allocations about doubles; non-trivial: N above 100") {
    const int n = c.range(20, 600), kind = c.range(0, 4);
    const bool warm = c.chance(1, 2);
    std::vector<int> op;
    for (int i = 0; i < 8; ++i) op.push_back(c.range(0, 1));
    static const char *name[] = {"independent variables", "functions of an independent variable", "products of two new variables", "products with the same variable", "numbers"};
    auto run = [&](int nn) {
        const U common = fresh(3);
        return cost([&] {
            U x = warm ? fresh(1) : U();
            for (int i = 0; i < nn; ++i) {
                U t;
                switch (kind) {
                case 0: t = fresh(i); break;
                case 1: t = unary(fresh(i), Cnt(2), Cnt(0.5)); break;
                case 2: t = fresh(i) * fresh(i + 1); break;
                case 3: t = common * fresh(i); break;
                default: t = U(Cnt(i)); break;
                }
                if (op[i % 8]) x += t; else x -= t;
            }
        });
    };
    const Cost a = run(n), b = run(2 * n);
    linear(c, std::string("accumulating ") + name[kind], n, a, b);
    if (n > 100) c.nontrivial();
}

LAW(operations, 20000, 120000, "binary and unary operations, assignments, deviation, variance, covariance of functions of N and 2N variables, disjoint or overlapping: the cost about doubles; non-trivial: N above 100") {
    const int n = c.range(20, 600), kind = c.range(0, 12), overlap = c.range(0, 2);
    static const char *name[] = {"x + y", "x * y", "x / y", "-x", "unary(x)", "copying x", "x += y", "x *= y", "x.s()", "var(x)", "cov(x, y)", "corr(x, y)", "nary"};
    auto run = [&](int nn) {
        U x = sum(nn), y;
        switch (overlap) {
        case 0: y = sum(nn); break;             // disjoint
        case 1: y = x * fresh(2); break;        // contained
        default: { U z = sum(nn / 2 + 1); x += z; y = sum(nn / 2 + 1); y += z; }
        }
        const U cx = x, cy = y;
        std::vector<U> v;
        if (kind == 12) for (int i = 0; i < nn; ++i) v.push_back(fresh(i));
        const std::vector<Cnt> d(nn, Cnt(0.5));
        return cost([&] {
            U r;
            switch (kind) {
            case 0: r = cx + cy; break;
            case 1: r = cx * cy; break;
            case 2: r = cx / cy; break;
            case 3: r = -cx; break;
            case 4: r = unary(cx, Cnt(2), Cnt(0.5)); break;
            case 5: r = cx; break;
            case 6: x += y; break;
            case 7: x *= y; break;
            case 8: (void)x.s(); break;
            case 9: (void)var(cx); break;
            case 10: (void)cov(cx, cy); break;
            case 11: (void)corr(cx, cy); break;
            default: r = nary(v.begin(), v.end(), Cnt(1), d.begin()); break;
            }
        });
    };
    const Cost a = run(n), b = run(2 * n);
    const char *o[] = {" of disjoint variables", " with y containing x", " of overlapping variables"};
    linear(c, std::string(name[kind]) + o[overlap], n, a, b);
    c.label(name[kind]);
    if (n > 100) c.nontrivial();
    // the deviation of a variable that is not const is computed once
    U x = sum(n);
    const bool first_var = c.chance(1, 3);
    if (first_var) (void)var(x); else (void)x.s();
    const Cost again = cost([&] { (void)x.s(); (void)var(x); });
    CHECK_THAT(c, again.ops <= 20, "asking again the deviation and variance of a function of " << n << " variables takes " << again.ops << " numeric operations");
    U y = x;
    const Cost copied = cost([&] { (void)y.s(); });
    CHECK_THAT(c, copied.ops <= 20, "asking the deviation of a copy of a variable of which it is known takes " << copied.ops << " numeric operations");
    // adding something small in place does not touch the whole
    const U small = fresh(1);
    const Cost add = cost([&] { x += small; });
    CHECK_THAT(c, add.ops <= 60 && add.alloc <= 4, "adding in place an independent variable to a function of " << n << " variables takes " << add.ops << " numeric operations and " << add.alloc << " allocations");
}

using D = unc::udouble;
static D function(int k, const D &x) {
    switch (k) {
    case 0: return sin(x);
    case 1: return cos(x);
    case 2: return exp(x);
    case 3: return atan(x);
    case 4: return abs(x);
    case 5: return tanh(x);
    case 6: return -x;
    case 7: return exp2(x);
    case 8: return cbrt(x);
    case 9: return erf(x);
    case 10: return asinh(x);
    case 11: return expm1(x);
    case 12: return +x;
    default: return unary(x, 2.0, 0.5);
    }
}

LAW(no_heap, 180000, 1000000, "random sequences of constructions, copies, moves, assignments, unary functions, queries of independent variables and exact numbers: no heap allocation; non-trivial: at least 5 operations") {
    D v[6] = {D(1, 0.5), D(2, 0.25), D(3), D(), D(0.5, 3), D(0, 1)};
    const int n = c.range(1, 30);
    double sink = 0;
    struct Step { int kind, i, j, f; double a, b; };
    std::vector<Step> s;
    for (int k = 0; k < n; ++k) s.push_back({c.range(0, 12), c.range(0, 5), c.range(0, 5), c.range(0, 13), gen_double(c, 2), gen_positive(c, 2)});
    int where = -1;
    for (const Step &t : s) {
        const Cost k = cost([&] {
            D &x = v[t.i];
            const D &y = v[t.j];
            switch (t.kind) {
            case 0: x = D(t.a, t.b); break;
            case 1: x = D(t.a); break;
            case 2: x = y; break;
            case 3: { D z = y; D w = std::move(z); x = std::move(w); break; }
            case 4: x = function(t.f, y); break;
            case 5: { const D z = function(t.f, y); sink += z.n(); break; }
            case 6: sink += y.n() + y.s() + x.s(); break;
            case 7: sink += cov(x, y) + var(x) + var(y); break;
            case 8: sink += x.isindep() + x.indepid(); break;
            case 9: if (y.indepid() > 0) sink += x.grad(y); break;
            case 10: { D z(t.a, t.b); std::swap(z, x); break; }
            case 11: x = t.a; break;
            default: sink += isfinite(x) + nom(x) + sdev(y); break;
            }
        });
        static const char *name[] = {"construction", "construction of an exact number", "assignment", "copy and move", "unary function", "unary function", "n(), s()", "cov, var", "isindep, indepid", "grad", "swap", "assignment of a number", "isfinite"};
        ++where;
        NOTE(c, name[t.kind] << " v" << t.i << ", v" << t.j << " function " << t.f);
        CHECK_THAT(c, k.alloc == 0, "operation " << where << ", " << name[t.kind] << " (v" << t.i << ", v" << t.j << ", function " << t.f << "), allocates on the heap " << k.alloc << " times, with independent variables only");
        for (auto &x : v) CHECK_THAT(c, x.isindep(), "a variable is not independent");
    }
    volatile double keep = sink;
    (void)keep;
    if (n >= 5) c.nontrivial();
}

// Searching is not a numeric operation: with very many variables, the processor
// time of anything quadratic is thousands of times that of the linear one.
#include <ctime>
#include <map>
#include <numeric>
static double cpu() {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
LAW(processor_time, 400, 2000, "the same operations with tens of thousands of variables: the processor time is not much more than that of filling a std::map; every case is non-trivial") {
    const int n = 20000 + 1000 * c.range(0, 20), kind = c.range(0, 12), overlap = c.range(0, 2);
    static const char *name[] = {"x + y", "x * y", "accumulating N variables with +=", "-x", "accumulating N variables with -=", "copying x", "x += y", "x *= y", "x.s()", "x.grad(N variables)", "cov(x, y)", "corr(x, y)", "nary"};
    std::vector<D> v, w;
    for (int i = 0; i < n; ++i) { v.push_back(D(i % 7, 1 + i % 3)); w.push_back(D(i % 5, 1 + i % 4)); }
    const std::vector<double> one(n, 1.0);
    D x, y;
    switch (overlap) {
    case 0: x = nary(v.begin(), v.end(), 1.0, one.begin()); y = nary(w.begin(), w.end(), 1.0, one.begin()); break;
    case 1: x = nary(v.begin(), v.end(), 1.0, one.begin()); y = x * w[0]; break;
    default: {
        std::vector<D> a(v.begin(), v.begin() + n / 2), b(w.begin(), w.begin() + n / 2);
        a.insert(a.end(), w.begin(), w.begin() + n / 4);
        x = nary(a.begin(), a.end(), 1.0, one.begin());
        y = nary(b.begin(), b.end(), 1.0, one.begin());
    }
    }
    const D cx = x, cy = y;
    double best = 1e9, base = 0, sink = 0;
    for (int attempt = 0; attempt < 3; ++attempt) {
        double t = cpu();
        {
            std::map<unc::Id, double> m;
            for (int i = 0; i < n; ++i) m[v[i].indepid()] += 1;
            sink += static_cast<double>(m.size());
        }
        base = std::max(base, cpu() - t);
        t = cpu();
        D r;
        switch (kind) {
        case 0: r = cx + cy; break;
        case 1: r = cx * cy; break;
        case 2: for (const D &z : v) r += z; break;
        case 3: r = -cx; break;
        case 4: for (const D &z : w) r -= z; break;
        case 5: r = cx; break;
        case 6: r = cx; r += cy; break;
        case 7: r = cx; r *= cy; break;
        case 8: sink += x.s(); break;
        case 9: for (const D &z : v) sink += cx.grad(z); break;
        case 10: sink += cov(cx, cy); break;
        case 11: sink += corr(cx, cy); break;
        default: r = nary(w.begin(), w.end(), 1.0, one.begin()); break;
        }
        sink += r.n();
        best = std::min(best, cpu() - t);
        if (best <= 60 * base + 0.05 || best > 1000 * base) break;
    }
    volatile double keep = sink;
    (void)keep;
    NOTE(c, name[kind] << " with " << n << " variables");
    CHECK_THAT(c, best <= 60 * base + 0.05, name[kind] << " with " << n << " variables takes more than sixty times the processor time needed to fill a map of that size: it is not linear");
    c.label(name[kind]);
    c.nontrivial();
}
