// chaos.hpp -- random histories of public operations on variables, with
// special values everywhere. What is decided is only that every operation
// returns or throws a standard exception.
#ifndef CHAOS_HPP
#define CHAOS_HPP

#include "funcs.hpp"
#include <array>
#include <deque>
#include <exception>
#include <list>
#include <stdexcept>
#include <vector>
#include <uncertainties/io.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>

// A recorded sequence of random numbers, so that a history can be run again.
struct Tape {
    const std::vector<std::uint64_t> *v;
    std::size_t pos = 0;
    std::uint64_t next() { return pos < v->size() ? (*v)[pos++] : 0; }
    int below(int n) { return static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
    bool chance(int a, int b) { return below(b) >= b - a; }
};

template<typename Real>
Real special(Tape &t) {
    using L = std::numeric_limits<Real>;
    switch (t.below(36)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return 2;
    case 4: return Real(0.5);
    case 5: return -Real(0);
    case 6: return L::infinity();
    case 7: return -L::infinity();
    case 8: return L::quiet_NaN();
    case 9: return -L::quiet_NaN();
    case 10: return L::denorm_min();
    case 11: return -L::denorm_min();
    case 12: return L::min();
    case 13: return -L::min();
    case 14: return L::max();
    case 15: return L::lowest();
    case 16: return L::epsilon();
    case 17: return 1 - L::epsilon() / 2;
    case 18: return std::sqrt(L::max());
    case 19: return std::sqrt(L::min());
    case 20: return Real(1e10);
    case 21: return Real(-1e-10);
    case 22: return L::min() / 3;
    case 23: return L::max() / 3;
    case 24: return static_cast<Real>(M_PI / 2);
    case 25: return 3;
    case 26: return -5;
    case 27: return Real(99999.5);
    case 28: return Real(0.0999995);
    case 29: return std::ldexp(Real(1) + t.below(1000) / Real(1000), t.below(2 * L::max_exponent) - L::max_exponent);
    case 30: return -std::ldexp(Real(1) + t.below(1000) / Real(1000), t.below(2 * L::max_exponent) - L::max_exponent);
    case 31: return std::pow(Real(10), Real(t.below(2 * L::max_exponent10) - L::max_exponent10));
    case 32: return Real(2147483648.0);
    default: return (t.below(20001) - 10000) / Real(1000);
    }
}
// mostly ordinary numbers, to go further before everything is NaN
template<typename Real>
Real value(Tape &t) {
    return t.chance(1, 3) ? special<Real>(t) : (t.below(20001) - 10000) / Real(1000);
}

inline float chaos_errdig(Tape &t) {
    switch (t.below(9)) {
    case 0: return 2.0f;
    case 1: return 1.5f;
    case 2: return special<float>(t);
    case 3: return 1.0f + std::numeric_limits<float>::epsilon();
    case 4: return static_cast<float>(t.below(1000));
    case 5: return t.below(40000) / 100.0f;
    default: return 1 + t.below(300) / 100.0f;
    }
}
// a long text of zeros is not an endless computation, but costs memory
inline bool chaos_errdig_small(float x) { return !(x > 2000) || x > 1.2e9f || std::isinf(x); }

template<typename U> struct Chaos;

template<typename Real> struct Chaos<unc::UReal<Real>> {
    using U = unc::UReal<Real>;
    static U make(Tape &t) {
        switch (t.below(8)) {
        case 0: return U(value<Real>(t));
        case 1: return U();
        case 2: return value<Real>(t);
        default: { const Real n = value<Real>(t); const Real s = value<Real>(t); return U(n, t.chance(9, 10) ? std::fabs(s) : s); }
        }
    }
    static U apply1(Tape &t, const U &x) { const Real mu = value<Real>(t); return unary(x, mu, value<Real>(t)); }
    static U apply2(Tape &t, const U &x, const U &y) { const Real mu = value<Real>(t), dx = value<Real>(t); return binary(x, y, mu, dx, value<Real>(t)); }
    static void step(Tape &t, std::vector<U> &v, int i, int j, double &sink) {
        switch (t.below(6)) {
        case 0: v[i] = change_nom(v[j], value<Real>(t)); break;
        case 1: { const Real mu = value<Real>(t), dt = value<Real>(t), dx = value<Real>(t); v[i].binary_assign(v[j], mu, dt, dx); break; }
        case 2: {
            std::vector<U> xs; std::vector<Real> ds;
            const int n = t.below(6);
            for (int k = 0; k < n; ++k) { xs.push_back(v[t.below(static_cast<int>(v.size()))]); ds.push_back(value<Real>(t)); }
            v[i] = nary(xs.begin(), xs.end(), value<Real>(t), ds.begin());
            break;
        }
        case 3: {
            const unc::UReal<float> f = v[j]; const unc::UReal<long double> l = v[j];
            sink += double(f.s()) + double(l.s());
            v[i] = t.chance(1, 2) ? U(f) : U(l);
            break;
        }
        case 4: {
            const auto f = unc::uunary<Real>([](Real x) { return x * x; }, value<Real>(t));
            const auto g = unc::ubinary<Real>([](Real x, Real y) { return x / y; }, value<Real>(t));
            v[i] = t.chance(1, 2) ? f(v[j]) : g(v[i], v[j]);
            break;
        }
        default: {
            const Real mu = value<Real>(t), d = value<Real>(t);
            const auto f = unc::uunary<Real>([mu](Real) { return mu; }, [d](Real) { return d; });
            v[i] = f(v[j]);
        }
        }
    }
    static void in_place(Tape &t, U &x, const U &y) {
        const Real a = value<Real>(t);
        switch (t.below(8)) {
        case 0: x += y; break;
        case 1: x -= y; break;
        case 2: x *= y; break;
        case 3: x /= y; break;
        case 4: x += a; break;
        case 5: x -= a; break;
        case 6: x *= a; break;
        default: x /= a;
        }
    }
    static void query(Tape &t, const U &x, const U &y, double &sink) {
        U z(x);
        sink += double(x.s()) + double(z.s()) + double(var(z));
        (void) t;
        (void) y;
    }
};

template<typename Real, unc::Prop p> struct Chaos<unc::UReal2<Real, p>> {
    using U = unc::UReal2<Real, p>;
    static U make(Tape &t) {
        switch (t.below(12)) {
        case 0: return U(value<Real>(t));
        case 1: return U();
        case 2: return value<Real>(t);
        case 3: case 4: { // anything for the moments
            std::array<Real, 7> m;
            for (auto &x : m) x = value<Real>(t);
            const Real n = value<Real>(t);
            switch (t.below(4)) {
            case 0: return U(n, m);
            case 1: return U(n, m, Real(-1));
            case 2: return U(n, m, special<Real>(t));
            default: return U(n, m, Real(1e-6));
            }
        }
        case 5: case 6: {
            std::array<Real, 6> m;
            for (auto &x : m) x = value<Real>(t);
            const Real n = value<Real>(t), s = value<Real>(t);
            switch (t.below(4)) {
            case 0: return U(n, s, m);
            case 1: return U(n, s, m, Real(-1));
            case 2: return U(n, s, m, special<Real>(t));
            default: return U(n, s, m, Real(1e-6));
            }
        }
        case 7: { const Real a = value<Real>(t), b = value<Real>(t); return unc::distr::uniform<U>(a, b); }
        case 8: return unc::distr::chisquare<U>(t.chance(1, 3) ? (t.chance(1, 2) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min()) : t.below(50) - 3);
        default: { const Real n = value<Real>(t), s = value<Real>(t); return unc::distr::normal<U>(n, t.chance(9, 10) ? std::fabs(s) : s); }
        }
    }
    static U apply1(Tape &t, const U &x) { const Real mu = value<Real>(t), dx = value<Real>(t); return unary(x, mu, dx, value<Real>(t)); }
    static U apply2(Tape &t, const U &x, const U &y) {
        const Real mu = value<Real>(t), dx = value<Real>(t), dy = value<Real>(t), ddx = value<Real>(t), ddy = value<Real>(t);
        return binary(x, y, mu, dx, dy, ddx, ddy, value<Real>(t));
    }
    static void step(Tape &t, std::vector<U> &v, int i, int j, double &sink) {
        constexpr unc::Prop q = p == unc::Prop::est ? unc::Prop::mean : unc::Prop::est;
        switch (t.below(6)) {
        case 0: { const unc::UReal2<Real, q> o(v[j]); sink += double(o.n()); v[i] = U(o); break; }
        case 1: { const unc::UReal2<long double, p> o = v[j]; sink += double(o.m(3)); v[i] = U(o); break; }
        case 2: { const unc::UReal2<float, q> o(v[j]); sink += double(o.s()); v[i] = U(o); break; }
        case 3: {
            const auto f = unc::uunary2<Real, p>([](Real x) { return x * x; }, value<Real>(t));
            const auto g = unc::ubinary2<Real, p>([](Real x, Real y) { return x / y; }, value<Real>(t));
            v[i] = t.chance(1, 2) ? f(v[j]) : g(v[i], v[j]);
            break;
        }
        case 4: {
            const auto f = unc::uunary2<Real, p>([](Real x) { return x * x; }, [](Real x) { return 2 * x; }, value<Real>(t));
            const auto g = unc::ubinary2<Real, p>([](Real x, Real y) { return x * y; }, [](Real, Real y) { return y; }, [](Real x, Real) { return x; }, value<Real>(t));
            v[i] = t.chance(1, 2) ? f(v[j]) : g(v[i], v[j]);
            break;
        }
        default: {
            const Real mu = value<Real>(t), d = value<Real>(t), dd = value<Real>(t);
            const auto f = unc::uunary2<Real, p>([mu](Real) { return mu; }, [d](Real) { return d; }, [dd](Real) { return dd; });
            v[i] = f(v[j]);
        }
        }
    }
    static void in_place(Tape &t, U &x, const U &y) { x = t.chance(1, 2) ? x * y : x + y; } // there are no such operators
    static void query(Tape &t, const U &x, const U &y, double &sink) {
        switch (t.below(3)) {
        case 0: sink += double(x.m(1)) + double(x.m(2)) + double(x.m(3)) + double(x.m(4)); break;
        case 1: sink += double(x.skew()) + double(x.kurt()) + double(x.first_order_n()); break;
        default: sink += double(x.hess(y, t.chance(1, 2) ? x : y)); break;
        }
    }
};

template<typename U, typename Vec>
void chaos_matrix(const Vec &x, double &sink, bool which) {
    using Real = typename U::real_type;
    const auto m = which ? unc::cov_matrix<std::vector<Real>>(x) : unc::corr_matrix<std::vector<Real>>(x);
    for (const auto &a : m) sink += double(a);
}

template<typename U>
void chaos_step(Tape &t, std::vector<U> &v, double &sink) {
    using Real = typename U::real_type;
    const int n = static_cast<int>(v.size());
    const int i = t.below(n), j = t.chance(1, 5) ? i : t.below(n), k = t.below(n);
    switch (t.below(40)) {
    case 0: case 1: case 2: v[i] = Chaos<U>::make(t); break;
    case 3: v[i] = v[j] + v[k]; break;
    case 4: v[i] = v[j] - v[k]; break;
    case 5: v[i] = v[j] * v[k]; break;
    case 6: v[i] = v[j] / v[k]; break;
    case 7: v[i] = -v[j]; break;
    case 8: v[i] = +v[j]; break;
    case 9: case 10: case 11: case 12: case 13: Chaos<U>::in_place(t, v[i], v[j]); break;
    case 14: { const Real a = value<Real>(t); switch (t.below(4)) { case 0: v[i] = v[j] + a; break; case 1: v[i] = a - v[j]; break; case 2: v[i] = v[j] * a; break; default: v[i] = a / v[j]; } break; }
    case 15: case 16: case 17: case 18: v[i] = f1_lib(t.below(n_f1), v[j]); break;
    case 19: case 20: v[i] = f2_lib(t.below(n_f2), v[j], v[k]); break;
    case 21: { const U e(value<Real>(t)); const int f = t.below(n_f2); v[i] = t.chance(1, 2) ? f2_lib(f, v[j], e) : f2_lib(f, e, v[j]); break; }
    case 22: v[i] = Chaos<U>::apply1(t, v[j]); break;
    case 23: case 24: v[i] = Chaos<U>::apply2(t, v[j], v[k]); break;
    case 25: case 26: case 27: Chaos<U>::step(t, v, i, j, sink); break;
    case 28: { U &r = v[i]; r = v[j]; const U copy(r); v[k] = copy; break; }
    case 29: { U moved(std::move(v[i])); v[i] = U(value<Real>(t)); v[k] = std::move(moved); break; }
    case 30: std::swap(v[i], v[j]); break;
    case 31: sink += double(v[i].n()) + double(v[i].s()); break;
    case 32: sink += double(cov(v[i], v[j])) + double(var(v[k])) + double(corr(v[i], v[k])); break;
    case 33: sink += double(v[i].grad(v[j])); break;
    case 34: sink += isfinite(v[i]) + isnormal(v[j]) + v[k].isindep(); break;
    case 35: sink += double(v[i].indepid()); break;
    case 36: Chaos<U>::query(t, v[i], v[j], sink); break;
    case 37: {
        const float e = chaos_errdig(t);
        if (!chaos_errdig_small(e)) break;
        sink += unc::format(v[i], e, t.chance(1, 2) ? " +- " : "").size();
        sink += v[j].format(e).size();
        break;
    }
    case 38: { std::ostringstream s; s << v[i] << " " << v[j]; sink += s.str().size(); break; }
    default: {
        const int m = t.below(4);
        switch (t.below(3)) {
        case 0: { std::vector<U> x(v.begin(), v.begin() + m); chaos_matrix<U>(x, sink, t.chance(1, 2)); break; }
        case 1: { std::list<U> x(v.begin(), v.begin() + m); chaos_matrix<U>(x, sink, t.chance(1, 2)); break; }
        default: for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) sink += double(nom(v[a])) + double(sdev(v[b]));
        }
    }
    }
}

// How far a history went: operations that returned, and that threw.
struct Went { int done = 0, threw = 0; };

// A history of n operations. The pool never refers to more than a bounded
// number of independent variables, because the costs grow with their fourth
// power: it is renewed when many have been created.
template<typename U>
Went chaos(const std::vector<std::uint64_t> &tape, int steps, double &sink) {
    Tape t {&tape};
    std::vector<U> v(6);
    Went w;
    const int per = 12;
    for (int s = 0; s < steps; ++s) {
        t.pos = static_cast<std::size_t>(s) * per;
        try {
            if (s % 16 == 15) v[s / 16 % v.size()] = U(typename U::real_type(1));
            chaos_step(t, v, sink);
            ++w.done;
        } catch (const std::exception &e) {
            sink += e.what()[0];
            ++w.threw;
        }
    }
    return w;
}
#endif
