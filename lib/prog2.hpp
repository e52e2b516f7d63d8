// prog2.hpp -- random straight-line programs as data, to be run on any kind of
// variable (UReal, UReal2 with either mode, any numerical type), and a
// reference model: mean, gradient and dense hessian with respect to the
// independent variables, with error bounds (forward mode automatic
// differentiation written from the chain rule).
#ifndef PROG2_HPP
#define PROG2_HPP

#include "category.hpp"
#include "gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <array>
#include <string>
#include <vector>

namespace unc = uncertainties;

template<typename Ref>
struct Dual {
    using E = Err<Ref>;
    int n = 0;
    E v;
    std::vector<E> g, h;     // gradient; hessian, dense n x n
    std::vector<bool> in;    // which independent variables entered
    Dual() {}
    explicit Dual(int nn): n(nn), g(nn), h(nn * nn), in(nn, false) {}
    const E &hess(int i, int j) const { return h[i * n + j]; }
    int support() const { int k = 0; for (bool b : in) k += b; return k; }
    int nonzero() const {
        int k = 0;
        for (auto &x : g) if (rabs(x.v) > x.e) ++k;
        return k;
    }
    bool has_hess() const { for (auto &x : h) if (rabs(x.v) > x.e) return true; return false; }
    bool has_offdiag() const {
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (rabs(hess(i, j).v) > hess(i, j).e) return true;
        return false;
    }
};

template<typename Ref>
bool zero(const Err<Ref> &x) { return x.v == 0 && x.e == 0; }

template<typename Ref>
Dual<Ref> dual_unary(const Dual<Ref> &x, const Err<Ref> &f, const Err<Ref> &d, const Err<Ref> &dd) {
    Dual<Ref> r(x.n);
    r.v = f;
    for (int i = 0; i < x.n; ++i) {
        r.in[i] = x.in[i];
        if (!x.in[i]) continue;
        r.g[i] = d * x.g[i];
        for (int j = 0; j < x.n; ++j) if (x.in[j]) r.h[i * x.n + j] = dd * x.g[i] * x.g[j] + d * x.hess(i, j);
    }
    return r;
}

template<typename Ref>
Dual<Ref> dual_binary(const Dual<Ref> &x, const Dual<Ref> &y, const Err<Ref> &f,
                      const Err<Ref> &dx, const Err<Ref> &dy,
                      const Err<Ref> &dxx, const Err<Ref> &dyy, const Err<Ref> &dxy) {
    using E = Err<Ref>;
    const int n = x.n;
    Dual<Ref> r(n);
    r.v = f;
    for (int i = 0; i < n; ++i) {
        r.in[i] = x.in[i] || y.in[i];
        if (!r.in[i]) continue;
        E g(0);
        if (x.in[i]) g = dx * x.g[i];
        if (y.in[i]) g = x.in[i] ? g + dy * y.g[i] : dy * y.g[i];
        r.g[i] = g;
    }
    for (int i = 0; i < n; ++i) {
        for (int j = i; j < n; ++j) {
            E h(0);
            if (x.in[i] && x.in[j]) h = h + dxx * x.g[i] * x.g[j] + dx * x.hess(i, j);
            if (y.in[i] && y.in[j]) h = h + dyy * y.g[i] * y.g[j] + dy * y.hess(i, j);
            if (x.in[i] && y.in[j]) h = h + dxy * x.g[i] * y.g[j];
            if (y.in[i] && x.in[j]) h = h + dxy * y.g[i] * x.g[j];
            r.h[i * n + j] = r.h[j * n + i] = h;
        }
    }
    return r;
}

enum class Kind { constant, neg, pos, add, sub, mul, div, adds, sadd, subs, ssub, muls, smul, divs, sdiv, fun, fun2, unary, binary, copy };

struct Op {
    Kind kind;
    int i = 0, j = 0, fn = 0;
    double s = 0;               // scalar, or value of the custom function
    std::array<double, 5> d {}; // derivatives of the custom function
    bool assign = false;        // as a compound assignment to a copy of the operand
    bool touch = false;         // deviations of the operands computed before
    int cat = 0;                // value categories of the operands (category.hpp)
};

struct Ind { double n, s; };

template<typename Real> Real pass(const Real &x) { return x; }

namespace std_fun {
#define STD_FUN(name) template<typename T> T name(const T &x) { using std::name; return T(name(x)); }
STD_FUN(expm1) STD_FUN(sinh) STD_FUN(cosh) STD_FUN(asin) STD_FUN(acos) STD_FUN(asinh) STD_FUN(acosh) STD_FUN(atanh) STD_FUN(cbrt)
#undef STD_FUN
}

// value and derivatives of the functions with index `fn` at x; false if x is
// out of the domain where the test makes sense
constexpr int n_fun = 24;
inline const char *fun_name(int k) {
    static const char *s[] = {"exp", "log", "sin", "cos", "sqrt", "atan", "tanh", "exp2", "log10", "log1p", "tan", "abs",
        "expm1", "sinh", "cosh", "asin", "acos", "asinh", "acosh", "atanh", "cbrt", "log2", "erf", "erfc"};
    return s[k];
}
template<typename Ref>
bool fun_eval(int k, const Err<Ref> &x, Err<Ref> &f, Err<Ref> &d, Err<Ref> &dd) {
    using E = Err<Ref>;
    using std::log;
    if (rabs(x.v) > Ref(30)) return false;
    switch (k) {
    case 0: f = exp(x); d = f; dd = f; return true;
    case 1: if (!(x.v > Ref(1e-2))) return false; f = log(x); d = E(1) / x; dd = -(d * d); return true;
    case 2: f = sin(x); d = cos(x); dd = -f; return true;
    case 3: f = cos(x); d = -sin(x); dd = -f; return true;
    case 4: if (!(x.v > Ref(1e-2))) return false; f = sqrt(x); d = E(1) / (E(2) * f); dd = -(d / (E(2) * x)); return true;
    case 5: f = atan(x); d = E(1) / (E(1) + x * x); dd = E(-2) * x * d * d; return true;
    case 6: f = tanh(x); d = E(1) - f * f; dd = E(-2) * f * d; return true;
    case 7: { const E l(Ref(log(Ref(2)))); f = exp(x * l); d = l * f; dd = l * d; return true; }
    case 8: { if (!(x.v > Ref(1e-2))) return false; const E l(Ref(log(Ref(10)))); f = log(x) / l; d = E(1) / (x * l); dd = -(d / x); return true; }
    case 9: { if (!(x.v > Ref(-0.9))) return false; const E p = E(1) + x; f = log(p); d = E(1) / p; dd = -(d * d); return true; }
    case 10: { if (!(rabs(x.v) < Ref(1.4))) return false; f = sin(x) / cos(x); d = E(1) + f * f; dd = E(2) * f * d; return true; }
    case 11: { if (!(rabs(x.v) > Ref(1e-6))) return false; const bool n = x.v < 0; f = n ? -x : x; d = E(n ? -1 : 1); dd = E(0); return true; }
    case 12: { const E e = exp(x); f = fun<Ref>(std_fun::expm1(x.v), e.v + e.e, x); d = e; dd = e; return true; }
    case 13: case 14: {
        const E e = exp(E(rabs(x.v), x.e));
        const E s = fun<Ref>(std_fun::sinh(x.v), e.v + e.e, x), c = fun<Ref>(std_fun::cosh(x.v), e.v + e.e, x);
        f = k == 13 ? s : c; d = k == 13 ? c : s; dd = f;
        return true;
    }
    case 15: case 16: {
        if (!(rabs(x.v) < Ref(0.95))) return false;
        const E q = E(1) - x * x, r = E(1) / sqrt(q);
        f = fun<Ref>(k == 15 ? std_fun::asin(x.v) : std_fun::acos(x.v), r.v + r.e, x);
        d = k == 15 ? r : -r; dd = d * x / q;
        return true;
    }
    case 17: {
        const E q = E(1) + x * x;
        f = fun<Ref>(std_fun::asinh(x.v), Ref(1), x); d = E(1) / sqrt(q); dd = -(d * x / q);
        return true;
    }
    case 18: {
        if (!(x.v > Ref(1.05))) return false;
        const E q = x * x - E(1);
        d = E(1) / sqrt(q); f = fun<Ref>(std_fun::acosh(x.v), d.v + d.e, x); dd = -(d * x / q);
        return true;
    }
    case 19: {
        if (!(rabs(x.v) < Ref(0.95))) return false;
        d = E(1) / (E(1) - x * x); f = fun<Ref>(std_fun::atanh(x.v), d.v + d.e, x); dd = E(2) * x * d * d;
        return true;
    }
    case 20: {
        if (!(rabs(x.v) > Ref(1e-2))) return false;
        const E one(1), r = fun<Ref>(std_fun::cbrt(x.v), Ref(10), x);
        f = r; d = one / (E(3) * r * r); dd = E(-2) * d / (E(3) * x);
        return true;
    }
    case 21: { if (!(x.v > Ref(1e-2))) return false; const E l(Ref(log(Ref(2)))); f = log(x) / l; d = E(1) / (x * l); dd = -(d / x); return true; }
    case 22: case 23:
        if constexpr (std::is_floating_point<Ref>::value) {
            // where erfc is not too small
            if (!(rabs(x.v) < Ref(5))) return false;
            const E one(1), p = E(Ref(1.1283791670955125738961589031215451716881012586580L)) * exp(-(x * x));
            f = fun<Ref>(k == 22 ? std::erf(x.v) : std::erfc(x.v), Ref(1.2), x);
            d = k == 22 ? p : -p; dd = E(-2) * x * d;
            return true;
        }
        return false;
    }
    return false;
}
template<typename U>
U fun_lib(int k, const U &x) {
    switch (k) {
    case 0: return exp(x);
    case 1: return log(x);
    case 2: return sin(x);
    case 3: return cos(x);
    case 4: return sqrt(x);
    case 5: return atan(x);
    case 6: return tanh(x);
    case 7: return exp2(x);
    case 8: return log10(x);
    case 9: return log1p(x);
    case 10: return tan(x);
    case 11: return abs(x);
    case 12: return expm1(x);
    case 13: return sinh(x);
    case 14: return cosh(x);
    case 15: return asin(x);
    case 16: return acos(x);
    case 17: return asinh(x);
    case 18: return acosh(x);
    case 19: return atanh(x);
    case 20: return cbrt(x);
    case 21: return log2(x);
    default:
        if constexpr (std::is_floating_point<typename U::real_type>::value) {
            if (k == 22) return erf(x);
            return erfc(x);
        }
        return x;
    }
}

constexpr int n_fun2 = 3;
inline const char *fun2_name(int k) {
    static const char *s[] = {"hypot", "atan2", "pow"};
    return s[k];
}
template<typename Ref>
bool fun2_eval(int k, const Err<Ref> &x, const Err<Ref> &y, Err<Ref> &f, std::array<Err<Ref>, 5> &d) {
    using E = Err<Ref>;
    using std::atan2;
    if (rabs(x.v) > Ref(100) || rabs(y.v) > Ref(100)) return false;
    switch (k) {
    case 0: {
        const E q = x * x + y * y;
        if (!(q.v > Ref(1e-2))) return false;
        f = sqrt(q);
        d[0] = x / f; d[1] = y / f;
        // as the library computes them: 1 - (x/h)^2
        d[2] = (E(1) - d[0] * d[0]) / f; d[3] = (E(1) - d[1] * d[1]) / f; d[4] = -(d[0] * d[1] / f);
        return true;
    }
    case 1: {
        const E q = x * x + y * y;
        if (!(q.v > Ref(1e-2))) return false;
        // away from the cut
        if (y.v < 0 && rabs(x.v) < Ref(1e-6)) return false;
        const Ref v = atan2(x.v, y.v);
        const E slope = (rabs(x.v) > rabs(y.v)) ? E(Ref(1 / rabs(x.v))) : E(Ref(1 / rabs(y.v)));
        f = rnd<Ref>(v, Ref(2 * slope.v * (x.e + y.e)));
        d[0] = y / q; d[1] = -(x / q);
        d[2] = E(-2) * (x / q) * (y / q); d[3] = -d[2];
        d[4] = (x * x - y * y) / (q * q);
        return true;
    }
    case 2: {
        if (!(x.v > Ref(1e-2)) || rabs(y.v) > Ref(6)) return false;
        const E l = log(x);
        f = exp(y * l);
        const E ix = E(1) / x;
        d[0] = f * ix * y; d[1] = f * l;
        d[2] = y * (y - E(1)) * f * ix * ix; d[3] = f * l * l;
        d[4] = f * ix + f * ix * y * l;
        return true;
    }
    }
    return false;
}
template<typename U>
U fun2_lib(int k, const U &x, const U &y) {
    switch (k) {
    case 0: return hypot(x, y);
    case 1: return atan2(x, y);
    default: return pow(x, y);
    }
}

// ------------------------------------------------------------ generation

struct Weights2 {
    int arith = 12, scalar = 4, neg = 2, fun = 4, fun2 = 2, custom = 4, constant = 1, copy = 1;
    int max_ops = 10, max_ind = 5, min_ind = 1;
    bool nonlinear = true;    // only linear operations if false
    double bound = 1e5;
};

template<typename Ref>
struct Program {
    using E = Err<Ref>;
    using D = Dual<Ref>;
    std::vector<Ind> ind;
    std::vector<Op> ops;
    std::vector<D> model;     // of the independent variables, then one per operation

    static Dual<Ref> constant(int n, double x) { Dual<Ref> r(n); r.v = E(Ref(x)); return r; }

    static bool model_of(const Op &o, const std::vector<D> &m, D &r) {
        const int n = m[0].n;
        const E s(Ref(o.s)), one(1), zero(0);
        const D &x = m[o.i], &y = m[o.j];
        const D c = constant(n, o.s);
        auto bin = [&](int k, const D &a, const D &b) {
            switch (k) {
            case 0: r = dual_binary<Ref>(a, b, a.v + b.v, one, one, zero, zero, zero); return true;
            case 1: r = dual_binary<Ref>(a, b, a.v - b.v, one, E(-1), zero, zero, zero); return true;
            case 2: r = dual_binary<Ref>(a, b, a.v * b.v, b.v, a.v, zero, zero, one); return true;
            default: {
                if (!(rabs(b.v.v) > Ref(1e-2))) return false;
                const E i = one / b.v, i2 = i * i;
                r = dual_binary<Ref>(a, b, a.v / b.v, i, -(a.v * i2), zero, E(2) * a.v * i2 * i, -i2);
                return true;
            }
            }
        };
        switch (o.kind) {
        case Kind::constant: r = c; return true;
        case Kind::neg: r = dual_unary<Ref>(x, -x.v, E(-1), zero); return true;
        case Kind::pos: case Kind::copy: r = x; return true;
        case Kind::add: return bin(0, x, y);
        case Kind::sub: return bin(1, x, y);
        case Kind::mul: return bin(2, x, y);
        case Kind::div: return bin(3, x, y);
        case Kind::adds: return bin(0, x, c);
        case Kind::sadd: return bin(0, c, x);
        case Kind::subs: return bin(1, x, c);
        case Kind::ssub: return bin(1, c, x);
        case Kind::muls: return bin(2, x, c);
        case Kind::smul: return bin(2, c, x);
        case Kind::divs: return bin(3, x, c);
        case Kind::sdiv: return bin(3, c, x);
        case Kind::fun: {
            E f, d, dd;
            if (!fun_eval<Ref>(o.fn, x.v, f, d, dd)) return false;
            r = dual_unary<Ref>(x, f, d, dd);
            return true;
        }
        case Kind::fun2: {
            E f;
            std::array<E, 5> d;
            if (!fun2_eval<Ref>(o.fn, x.v, y.v, f, d)) return false;
            r = dual_binary<Ref>(x, y, f, d[0], d[1], d[2], d[3], d[4]);
            return true;
        }
        case Kind::unary: r = dual_unary<Ref>(x, s, E(Ref(o.d[0])), E(Ref(o.d[1]))); return true;
        case Kind::binary:
            r = dual_binary<Ref>(x, y, s, E(Ref(o.d[0])), E(Ref(o.d[1])), E(Ref(o.d[2])), E(Ref(o.d[3])), E(Ref(o.d[4])));
            return true;
        }
        return false;
    }

    static bool acceptable(const D &d, const std::vector<Ind> &ind, double bound) {
        const Ref b(bound), t = rmax<Ref>(Ref(1e-6), Ref(1e4) * ErrEnv<Ref>::eps);
        if (!(rabs(d.v.v) <= b) || !(d.v.e <= t * rmax<Ref>(rabs(d.v.v), Ref(1)))) return false;
        for (int i = 0; i < d.n; ++i) {
            if (!(rabs(d.g[i].v) <= b) || !(d.g[i].e <= t * rmax<Ref>(rabs(d.g[i].v), Ref(1)))) return false;
        }
        for (auto &x : d.h) if (!(rabs(x.v) <= b) || !(x.e <= t * rmax<Ref>(rabs(x.v), Ref(1)))) return false;
        return true;
    }

    static std::string show(const Op &o, int k) {
        std::ostringstream ss;
        ss.precision(17);
        ss << "v" << k << " = ";
        switch (o.kind) {
        case Kind::constant: ss << o.s; break;
        case Kind::neg: ss << "-v" << o.i; break;
        case Kind::pos: ss << "+v" << o.i; break;
        case Kind::copy: ss << "copy of v" << o.i; break;
        case Kind::add: ss << "v" << o.i << " + v" << o.j; break;
        case Kind::sub: ss << "v" << o.i << " - v" << o.j; break;
        case Kind::mul: ss << "v" << o.i << " * v" << o.j; break;
        case Kind::div: ss << "v" << o.i << " / v" << o.j; break;
        case Kind::adds: ss << "v" << o.i << " + " << o.s; break;
        case Kind::sadd: ss << o.s << " + v" << o.i; break;
        case Kind::subs: ss << "v" << o.i << " - " << o.s; break;
        case Kind::ssub: ss << o.s << " - v" << o.i; break;
        case Kind::muls: ss << "v" << o.i << " * " << o.s; break;
        case Kind::smul: ss << o.s << " * v" << o.i; break;
        case Kind::divs: ss << "v" << o.i << " / " << o.s; break;
        case Kind::sdiv: ss << o.s << " / v" << o.i; break;
        case Kind::fun: ss << fun_name(o.fn) << "(v" << o.i << ")"; break;
        case Kind::fun2: ss << fun2_name(o.fn) << "(v" << o.i << ", v" << o.j << ")"; break;
        case Kind::unary: ss << "unary(v" << o.i << ", " << o.s << ", " << o.d[0] << ", " << o.d[1] << ")"; break;
        case Kind::binary:
            ss << "binary(v" << o.i << ", v" << o.j << ", " << o.s;
            for (double x : o.d) ss << ", " << x;
            ss << ")";
            break;
        }
        if (o.assign) ss << " (as an assignment to a copy)";
        if (o.touch) ss << " (deviations computed before)";
        if (o.cat) ss << " (value categories " << o.cat << ")";
        return ss.str();
    }

    IdGap gap;

    void generate(pbt::Case &c, const Weights2 &w) {
        const int n = w.min_ind + static_cast<int>(c.below(w.max_ind - w.min_ind + 1));
        // sometimes all the deviations are very small
        const bool wide = ErrEnv<Ref>::eps < Ref(1e-10) && c.chance(1, 6);
        const double scale = wide ? std::ldexp(1, c.pick({-20, -40, -60, -80})) : 1;
        gap.choose(c);
        for (int i = 0; i < n; ++i) {
            Ind x {gen_double(c, 2), c.chance(1, 2) ? gen_positive(c, 1) : gen_uniform(c, 0.1, 2) };
            x.s *= scale;
            x.n = in_type(x.n);
            x.s = in_type(x.s);
            ind.push_back(x);
            D d(n);
            d.v = E(Ref(x.n));
            d.g[i] = E(1);
            d.in[i] = true;
            model.push_back(d);
            NOTE(c, "v" << i << ": independent, mean " << x.n << ", standard deviation " << x.s);
        }
        const int nops = 1 + static_cast<int>(c.below(w.max_ops));
        for (int q = 0; q < nops; ++q) add(c, w);
    }

    // the nearest number in the type under test, when narrower than double
    static double in_type(double x) { return ErrEnv<Ref>::eps > Ref(1e-10) ? static_cast<double>(static_cast<float>(x)) : x; }

    int pick(pbt::Case &c) {
        // recent ones are more likely
        const int n = static_cast<int>(model.size());
        if (c.chance(1, 2)) return n - 1 - static_cast<int>(c.below(n < 4 ? n : 4));
        return static_cast<int>(c.below(n));
    }

    static bool assignable(Kind k) {
        return k == Kind::add || k == Kind::sub || k == Kind::mul || k == Kind::div || k == Kind::adds || k == Kind::subs || k == Kind::muls || k == Kind::divs;
    }
    static double deriv(pbt::Case &c) { return c.chance(1, 3) ? 0.0 : gen_double(c, 1); }

    bool add(pbt::Case &c, const Weights2 &w) {
        Op o {};
        o.i = pick(c);
        const int nl = w.nonlinear ? 1 : 0;
        switch (c.weighted({w.arith, w.scalar, w.neg, nl * w.fun, nl * w.fun2, w.custom, w.constant, w.copy})) {
        case 0:
            o.j = c.chance(1, 8) ? o.i : pick(c);
            o.kind = w.nonlinear ? c.pick({Kind::add, Kind::sub, Kind::mul, Kind::mul, Kind::div}) : c.pick({Kind::add, Kind::sub});
            break;
        case 1:
            o.kind = w.nonlinear ? c.pick({Kind::adds, Kind::sadd, Kind::subs, Kind::ssub, Kind::muls, Kind::smul, Kind::divs, Kind::sdiv})
                                 : c.pick({Kind::adds, Kind::sadd, Kind::subs, Kind::ssub, Kind::muls, Kind::smul, Kind::divs});
            o.s = gen_double(c, 1);
            break;
        case 2: o.kind = c.chance(1, 4) ? Kind::pos : Kind::neg; break;
        case 3: o.kind = Kind::fun; o.fn = static_cast<int>(c.below(n_fun)); break;
        case 4: o.kind = Kind::fun2; o.j = c.chance(1, 8) ? o.i : pick(c); o.fn = static_cast<int>(c.below(n_fun2)); break;
        case 5:
            o.s = gen_double(c, 1);
            if (c.chance(1, 3)) {
                o.kind = Kind::unary;
                o.d[0] = deriv(c);
                o.d[1] = w.nonlinear ? deriv(c) : 0;
            } else {
                o.kind = Kind::binary;
                o.j = c.chance(1, 8) ? o.i : pick(c);
                for (int k = 0; k < (w.nonlinear ? 5 : 2); ++k) o.d[k] = deriv(c);
            }
            break;
        case 6: o.kind = Kind::constant; o.s = gen_double(c, 1); break;
        default: o.kind = Kind::copy;
        }
        o.s = in_type(o.s);
        for (double &x : o.d) x = in_type(x);
        if (assignable(o.kind)) o.assign = c.chance(1, 4);
        o.touch = c.chance(1, 6);
        if (c.chance(1, 4)) { o.cat = static_cast<int>(c.below(n_cat2)); c.label("temporary operands"); }
        D d;
        if (!model_of(o, model, d) || !acceptable(d, ind, w.bound)) return false;
        ops.push_back(o);
        model.push_back(d);
        NOTE(c, show(o, static_cast<int>(model.size()) - 1));
        return true;
    }
};

// Run one operation of a program on actual variables. `U` may be UReal or
// UReal2; custom functions go through the low level interface.
template<typename U> struct IsSecond : std::false_type {};
template<typename Real, unc::Prop p> struct IsSecond<unc::UReal2<Real, p>> : std::true_type {};

template<typename A>
typename std::decay<A>::type custom1(A &&x, const Op &o) {
    using U = typename std::decay<A>::type;
    using Real = typename U::real_type;
    if constexpr (IsSecond<U>::value) return unary(std::forward<A>(x), Real(o.s), Real(o.d[0]), Real(o.d[1]));
    else return unary(std::forward<A>(x), Real(o.s), Real(o.d[0]));
}
template<typename A, typename B>
typename std::decay<A>::type custom2(A &&x, B &&y, const Op &o) {
    using U = typename std::decay<A>::type;
    using Real = typename U::real_type;
    if constexpr (IsSecond<U>::value) return binary(std::forward<A>(x), std::forward<B>(y), Real(o.s), Real(o.d[0]), Real(o.d[1]), Real(o.d[2]), Real(o.d[3]), Real(o.d[4]));
    else return binary(std::forward<A>(x), std::forward<B>(y), Real(o.s), Real(o.d[0]), Real(o.d[1]));
}

// compound assignments: UReal only has them
template<typename Real, typename Y>
void assign_op(unc::UReal<Real> &z, Y &&y, const Real &s, Kind k) {
    switch (k) {
    case Kind::add: z += std::forward<Y>(y); break;
    case Kind::sub: z -= std::forward<Y>(y); break;
    case Kind::mul: z *= std::forward<Y>(y); break;
    case Kind::div: z /= std::forward<Y>(y); break;
    case Kind::adds: z += s; break;
    case Kind::subs: z -= s; break;
    case Kind::muls: z *= s; break;
    default: z /= s; break;
    }
}
template<typename Real, unc::Prop p>
void assign_op(unc::UReal2<Real, p> &z, const unc::UReal2<Real, p> &y, const Real &s, Kind k) {
    switch (k) {
    case Kind::add: z = z + y; break;
    case Kind::sub: z = z - y; break;
    case Kind::mul: z = z * y; break;
    case Kind::div: z = z / y; break;
    case Kind::adds: z = z + s; break;
    case Kind::subs: z = z - s; break;
    case Kind::muls: z = z * s; break;
    default: z = z / s; break;
    }
}

inline int &touch_sink() { static thread_local int n = 0; return n; }

template<typename U>
U exec_op(const Op &o, const std::vector<U> &v) {
    using Real = typename U::real_type;
    const U &x = v[o.i], &y = v[o.j];
    const Real s(o.s);
    if (o.touch) touch_sink() += (x.s() > 0) + (y.s() > 0) + (x.n() > 0);
    if (o.assign) {
        U z = x;
        if (o.cat % 2 && o.i != o.j) assign_op(z, U(y), s, o.kind);
        else assign_op(z, o.i == o.j ? z : y, s, o.kind);
        return z;
    }
    switch (o.kind) {
    case Kind::constant: return U(s);
    case Kind::neg: return cat1(o.cat % n_cat1, x, [](auto &&a) { return U(-FWD(a)); });
    case Kind::pos: return cat1(o.cat % n_cat1, x, [](auto &&a) { return U(+FWD(a)); });
    case Kind::copy: return x;
    case Kind::add: return cat2(o.cat, x, y, [](auto &&a, auto &&b) { return U(FWD(a) + FWD(b)); });
    case Kind::sub: return cat2(o.cat, x, y, [](auto &&a, auto &&b) { return U(FWD(a) - FWD(b)); });
    case Kind::mul: return cat2(o.cat, x, y, [](auto &&a, auto &&b) { return U(FWD(a) * FWD(b)); });
    case Kind::div: return cat2(o.cat, x, y, [](auto &&a, auto &&b) { return U(FWD(a) / FWD(b)); });
    case Kind::adds: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(FWD(a) + s); });
    case Kind::sadd: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(s + FWD(a)); });
    case Kind::subs: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(FWD(a) - s); });
    case Kind::ssub: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(s - FWD(a)); });
    case Kind::muls: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(FWD(a) * s); });
    case Kind::smul: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(s * FWD(a)); });
    case Kind::divs: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(FWD(a) / s); });
    case Kind::sdiv: return cat1(o.cat % n_cat1, x, [&](auto &&a) { return U(s / FWD(a)); });
    case Kind::fun: return fun_lib(o.fn, x);
    case Kind::fun2: return fun2_lib(o.fn, x, y);
    case Kind::unary: return o.cat % 2 ? custom1(U(x), o) : custom1(x, o);
    case Kind::binary: return cat2(o.cat, x, y, [&](auto &&a, auto &&b) { return custom2(FWD(a), FWD(b), o); });
    }
    return U();
}

template<typename U, typename Ref, typename Make>
std::vector<U> exec(const Program<Ref> &p, Make make) {
    std::vector<U> v;
    IdGap gap = p.gap;
    for (std::size_t i = 0; i < p.ind.size(); ++i) { gap.skip(); v.push_back(make(static_cast<int>(i), p.ind[i])); }
    for (auto &o : p.ops) v.push_back(exec_op<U>(o, v));
    return v;
}

// moments of some plain distributions (standardized, third to eighth)
inline const std::array<double, 6> &std_moments(int k) {
    static const std::array<double, 6> m[] = {
        {0, 3, 0, 15, 0, 105},              // normal
        {0, 1.8, 0, 27.0 / 7, 0, 9},        // uniform
        {2, 9, 44, 265, 1854, 14833},       // exponential
        {-2, 9, -44, 265, -1854, 14833},
    };
    return m[k];
}

template<typename U>
struct MakeU;
template<typename Real>
struct MakeU<unc::UReal<Real>> {
    unc::UReal<Real> operator()(int, const Ind &x) const { return unc::UReal<Real>(Real(x.n), Real(x.s)); }
};
template<typename Real, unc::Prop p>
struct MakeU<unc::UReal2<Real, p>> {
    std::vector<int> kind;
    unc::UReal2<Real, p> operator()(int i, const Ind &x) const {
        std::array<Real, 6> m;
        const auto &d = std_moments(kind.empty() ? 0 : kind[i % kind.size()]);
        for (int k = 0; k < 6; ++k) m[k] = Real(d[k]);
        return unc::UReal2<Real, p>(Real(x.n), Real(x.s), m, Real(-1));
    }
};

#endif
