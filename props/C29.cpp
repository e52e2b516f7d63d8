// C29: results are right over the whole range of the numerical type.
#include "../lib/funcs.hpp"
#include "../lib/magnitude.hpp"
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>

using T = __float128;

static std::string str(T x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.22Qg", x); return b; }

// The whole range of the type: any argument such that the result, its
// derivatives and its variance are normal numbers.
template<typename R>
static bool representable(const T &x) {
    const T a = rf::abs(x), lo = T(std::numeric_limits<R>::min()) * 16, hi = T(std::numeric_limits<R>::max()) / 16;
    return a > lo && a < hi;
}

template<typename R>
static R any_magnitude(pbt::Case &c) {
    const int lo = std::numeric_limits<R>::min_exponent10, hi = std::numeric_limits<R>::max_exponent10 - 1;
    return static_cast<R>(gen_scaled(c, lo, hi));
}

template<typename R>
static void expect_range(pbt::Case &c, R lib, const T &ref, const T &tol, const std::string &what) {
    const T d = rf::abs(T(T(lib) - ref));
    if (!(d <= tol)) FAIL(c, what << " is " << lib << ", expected " << str(ref) << " +- " << str(tol));
}

template<typename R>
static R argument(pbt::Case &c, int k) {
    R x = any_magnitude<R>(c);
    const R top = std::log(std::numeric_limits<R>::max());
    switch (k) {
    case f_exp: case f_exp2: case f_expm1: case f_sinh: case f_cosh: x = c.chance(3, 4) ? static_cast<R>(gen_uniform(c, 0, 1)) * top : x < 1 ? x : 1 / x; break;
    case f_tanh: x = c.chance(3, 4) ? static_cast<R>(gen_uniform(c, 0, 1)) * 20 : x < 1 ? x : 1 / x; break;
    case f_erf: case f_erfc: x = c.chance(3, 4) ? static_cast<R>(gen_uniform(c, 0, 1)) * std::sqrt(top) : x < 1 ? x : 1 / x; break;
    case f_acosh: if (!(x > 1)) x = 1 + x; if (!(x > 1)) throw pbt::Discard{}; break;
    }
    if (k != f_log && k != f_log10 && k != f_log2 && k != f_log1p && k != f_sqrt && k != f_acosh && c.chance(1, 2)) x = -x;
    if (!std::isnormal(x)) throw pbt::Discard{};
    return x;
}

template<typename R>
static void range(pbt::Case &c) {
    using V = unc::UReal<R>;
    const T E = std::numeric_limits<R>::epsilon(), MIN = std::numeric_limits<R>::denorm_min();
    const char *type = sizeof(R) == 4 ? "float" : "double";
    if (c.chance(1, 2)) {
        static const F1 ks[] = {f_abs, f_exp, f_exp2, f_expm1, f_log, f_log10, f_log2, f_log1p, f_sqrt, f_cbrt, f_atan, f_sinh, f_cosh, f_tanh, f_asinh, f_acosh, f_erf, f_erfc};
        const int k = ks[c.below(sizeof ks / sizeof *ks)];
        const R x = argument<R>(c, k);
        D1<T> r;
        if (!f1_derivs<T>(k, T(x), r)) throw pbt::Discard{};
        const R s = std::abs(x) * static_cast<R>(gen_uniform(c, 0.01, 0.3));
        const T sf = rf::abs(r.d[1]) * T(s);
        if (!representable<R>(r.f) || !representable<R>(r.d[1]) || !representable<R>(sf) || !representable<R>(sf * sf) || !std::isnormal(s)) throw pbt::Discard{};
        // the derivative of erfc and the like is as sensitive as this
        const T tol = 64 * E * (rf::abs(r.d[1]) + rf::abs(T(x) * r.d[2])) + 2 * r.e[1];
        if (!(tol < rf::abs(r.d[1]) / 16)) throw pbt::Discard{};
        const std::string name = f1_name(k);
        c.label(name);
        NOTE(c, name << "(x), x = " << x << " +- " << s << ", " << type);
        const V X(x, s);
        const V f = f1_lib(k, X);
        expect_range<R>(c, f.n(), r.f, 64 * E * rf::abs(r.f) + r.e[0], "the mean of " + name);
        expect_range<R>(c, f.s(), sf, tol * s + MIN, "the standard deviation of " + name);
        expect_range<R>(c, f.grad(X), r.d[1], tol + MIN, "the derivative of " + name);
        if (rf::abs(T(x)) > 1e20 || rf::abs(T(x)) < 1e-20 || rf::abs(r.d[1]) < 1e-6) c.nontrivial();
        return;
    }
    const int k = f_pow + static_cast<int>(c.below(3));
    const std::string name = f2_name(k);
    c.label(name);
    R x = any_magnitude<R>(c), y = c.chance(1, 2) ? any_magnitude<R>(c) : x * static_cast<R>(gen_scaled(c, -3, 3));
    if (k == f_pow) y = static_cast<R>(gen_uniform(c, -1, 1)) * std::log(std::numeric_limits<R>::max()) / std::max(R(1), std::abs(std::log(x)));
    else { if (c.chance(1, 2)) x = -x; if (c.chance(1, 2)) y = -y; }
    if (!std::isnormal(x) || !std::isnormal(y)) throw pbt::Discard{};
    // exact gradients: the differences have no meaning with so different scales
    T g[2], f, sense[2] = {T(1), T(1)};
    const T tx = x, ty = y, h = rf::hypot(tx, ty);
    if (k == f_pow) {
        f = rf::pow(tx, ty);
        const T l = rf::log(tx);
        g[0] = ty * rf::pow(tx, T(ty - 1));
        g[1] = f * l;
        if (!representable<R>(f / tx)) throw pbt::Discard{};   // a factor of the derivative
        sense[0] = 1 + (1 + rf::abs(ty)) * rf::abs(l);
        sense[1] = 1 + rf::abs(ty * l);
    } else if (k == f_hypot) { f = h; g[0] = tx / h; g[1] = ty / h; }
    else { f = rf::atan2(tx, ty); g[0] = ty / (h * h); g[1] = -tx / (h * h); }
    const R s = std::abs(x) * static_cast<R>(gen_uniform(c, 0.01, 0.3)), t = std::abs(y) * static_cast<R>(gen_uniform(c, 0.01, 0.3));
    const T a = rf::abs(g[0]) * s, b = rf::abs(g[1]) * t, sf = rf::hypot(a, b);
    if (!std::isnormal(s) || !std::isnormal(t)) throw pbt::Discard{};
    for (const T &v : {f, g[0], g[1], sf, T(sf * sf), a, b, T(a * a), T(b * b)}) if (!representable<R>(v)) throw pbt::Discard{};
    NOTE(c, name << "(x, y), x = " << x << " +- " << s << ", y = " << y << " +- " << t << ", " << type);
    const V X(x, s), Y(y, t), F = f2_lib(k, X, Y);
    const T w = sense[0] > sense[1] ? sense[0] : sense[1];
    expect_range<R>(c, F.n(), f, 64 * E * rf::abs(f) * w, "the mean of " + name);
    expect_range<R>(c, F.s(), sf, 64 * E * w * sf, "the standard deviation of " + name);
    expect_range<R>(c, F.grad(X), g[0], 64 * E * w * rf::abs(g[0]) + MIN, "the derivative of " + name + " with respect to x");
    expect_range<R>(c, F.grad(Y), g[1], 64 * E * w * rf::abs(g[1]) + MIN, "the derivative of " + name + " with respect to y");
    if (h > 1e20 || h < 1e-20) c.nontrivial();
}


LAW(functions_first, 300000, 4000000, "functions of one and two arguments at first order, float and double, at any magnitude such that the result and its deviation are normal numbers; non-trivial: an argument above 1e20 or below 1e-20, or a derivative below 1e-6") {
    if (c.chance(1, 2)) range<double>(c); else range<float>(c);
}

// The same at second order: the derivatives that are normal numbers, also
// multiplied by the deviations.
template<typename U>
static void range2(pbt::Case &c) {
    using R = typename U::real_type;
    const T E = std::numeric_limits<R>::epsilon();
    const char *type = sizeof(R) == 4 ? "float" : "double";
    static const F1 ks[] = {f_abs, f_exp, f_exp2, f_expm1, f_log, f_log10, f_log2, f_log1p, f_sqrt, f_cbrt, f_atan, f_sinh, f_cosh, f_tanh, f_asinh, f_acosh, f_erf, f_erfc};
    const int k = ks[c.below(sizeof ks / sizeof *ks)];
    const R x = argument<R>(c, k);
    D1<T> r;
    if (!f1_derivs<T>(k, T(x), r)) throw pbt::Discard{};
    const R s = std::abs(x) * static_cast<R>(gen_uniform(c, 0.01, 0.3));
    const T S = s;
    if (!std::isnormal(s) || !representable<R>(r.f) || !representable<R>(r.d[1]) || !representable<R>(r.d[1] * S)) throw pbt::Discard{};
    const T ax = rf::abs(T(x));
    const T t1 = 64 * E * (rf::abs(r.d[1]) + ax * rf::abs(r.d[2])) + 2 * r.e[1];
    if (!(t1 < rf::abs(r.d[1]) / 16)) throw pbt::Discard{};
    const std::string name = f1_name(k);
    c.label(name);
    NOTE(c, name << "(x), x = " << x << " +- " << s << ", " << type);
    const std::array<R, 6> mom {{0, 3, 0, 15, 0, 105}};
    const U X(x, s, mom, -1);
    const U f = f1_lib(k, X);
    expect_range<R>(c, f.first_order_n(), r.f, 64 * E * rf::abs(r.f) + r.e[0], "first_order_n() of " + name);
    expect_range<R>(c, f.grad(X), r.d[1], t1, "the first derivative of " + name);
    const T t2 = 64 * E * (rf::abs(r.d[2]) + ax * rf::abs(r.d[3])) + 2 * r.e[2] + 64 * E * ax * r.e[3];
    const T h = r.d[2];
    if (representable<R>(h) && representable<R>(h * S) && representable<R>(h * S * S) && representable<R>(S * S) && t2 < rf::abs(h) / 16) {
        expect_range<R>(c, f.hess(X, X), h, t2, "the second derivative of " + name);
        if (ax > 1e15 || ax < 1e-15 || rf::abs(r.d[1]) < 1e-6) c.nontrivial();
    }
}

template<typename U>
static void two2(pbt::Case &c) {
    using R = typename U::real_type;
    const T E = std::numeric_limits<R>::epsilon();
    const int k = c.chance(1, 2) ? f_hypot : f_atan2;
    const int top = std::numeric_limits<R>::max_exponent10 / 2 - 2;
    const double m = gen_scaled(c, -top, top);
    const R x = static_cast<R>(m * gen_signed(c, -1, 1)), y = static_cast<R>(m * gen_signed(c, -1, 1));
    if (!std::isnormal(x) || !std::isnormal(y)) throw pbt::Discard{};
    D2<T> r;
    if (!f2_derivs<T>(k, T(x), T(y), r, false)) throw pbt::Discard{};
    const R s = std::abs(x) * static_cast<R>(gen_uniform(c, 0.01, 0.3)), t = std::abs(y) * static_cast<R>(gen_uniform(c, 0.01, 0.3));
    const std::string name = f2_name(k);
    c.label(name);
    NOTE(c, name << "(x, y), x = " << x << " +- " << s << ", y = " << y << " +- " << t << (sizeof(R) == 4 ? ", float" : ", double"));
    const std::array<R, 6> mom {{0, 3, 0, 15, 0, 105}};
    const U X(x, s, mom, -1), Y(y, t, mom, -1);
    const U f = f2_lib(k, X, Y);
    const T w[5] = {T(s), T(t), T(s) * s, T(t) * t, T(s) * t};
    bool all = true;
    for (int i = 0; i < 5; ++i) {
        const T d = r.d[i], tol = 64 * E * (rf::abs(d) + r.s[i]) + 2 * r.e[i];
        if (!representable<R>(d) || !representable<R>(w[i]) || !representable<R>(d * w[i]) || !(tol < rf::abs(d) / 16)
            || (i >= 2 && (!representable<R>(d * s) || !representable<R>(d * t)))) { all = false; continue; }
        const R lib = i == 0 ? f.grad(X) : i == 1 ? f.grad(Y) : i == 2 ? f.hess(X, X) : i == 3 ? f.hess(Y, Y) : f.hess(X, Y);
        static const char *wrt[] = {"x", "y", "x, x", "y, y", "x, y"};
        expect_range<R>(c, lib, d, tol, "the derivative of " + name + " with respect to " + wrt[i]);
    }
    expect_range<R>(c, f.first_order_n(), r.f, 64 * E * r.fs, "first_order_n() of " + name);
    if (all && (m > 1e15 || m < 1e-15)) c.nontrivial();
}

template<typename U>
static void any2(pbt::Case &c) { if (c.chance(3, 4)) range2<U>(c); else two2<U>(c); }

LAW(functions_second, 200000, 3000000, "first and second derivatives of functions of one argument, of hypot and atan2, float and double, both modes, at any magnitude such that they are normal numbers; non-trivial: the second derivatives are compared at an argument above 1e15 or below 1e-15, or where the first one is below 1e-6") {
    switch (c.below(4)) {
    case 0: any2<unc::udouble2e>(c); break;
    case 1: any2<unc::udouble2m>(c); break;
    case 2: any2<unc::ufloat2e>(c); break;
    default: any2<unc::ufloat2m>(c);
    }
}

LAW(operators_first, 150000, 2000000, "the four operators at first order, in place or not, with variables and numbers, float and double, at any magnitude such that the derivatives and their products with the deviations are normal numbers; non-trivial: an operand or the result above 1e15 or the result below 1e-15") {
    if (c.chance(1, 2)) magnitude::first<double>(c); else magnitude::first<float>(c);
}

LAW(operators_second, 100000, 1500000, "the four operators at second order with variables and numbers, float and double, both modes, at any magnitude such that the derivatives and their products with the deviations are normal numbers; non-trivial: an operand or the result above 1e15 or the result below 1e-15") {
    switch (c.below(4)) {
    case 0: magnitude::second<double, unc::Prop::est>(c); break;
    case 1: magnitude::second<double, unc::Prop::mean>(c); break;
    case 2: magnitude::second<float, unc::Prop::est>(c); break;
    default: magnitude::second<float, unc::Prop::mean>(c);
    }
}

// ---------------------------------------------------------------- scaling
//
// Multiplying the independent variables, and what is computed, by powers of two
// is exact: every statistic is multiplied by the power that it should be.

template<typename R>
static void expect_scaled(pbt::Case &c, R lib, R plain, int e, R scale, const std::string &what) {
    const R back = std::ldexp(lib, -e);
    if (!(std::abs(back - plain) <= R(1e5) * std::numeric_limits<R>::epsilon() * scale))
        FAIL(c, what << " is " << plain << ", and " << lib << " times 2^" << -e << " = " << back << " of the scaled variables");
}

template<typename R>
static R coefficient(pbt::Case &c) { return static_cast<R>(c.range(-32, 32) / 8.0); }

// linear combinations
template<typename R>
static void scaled1(pbt::Case &c) {
    using U = unc::UReal<R>;
    const int lim = std::numeric_limits<R>::max_exponent / 2 - 24;
    const int n = c.range(1, 5), j = c.range(-lim / 2, lim / 2);
    const int m = c.range(2, 4);
    int total[4], k[4];
    for (int i = 0; i < m; ++i) { total[i] = c.range(-lim, lim); k[i] = total[i] - j; }
    NOTE(c, n << " variables multiplied by 2^" << j << (sizeof(R) == 4 ? ", float" : ", double"));
    std::vector<U> x, X;
    for (int i = 0; i < n; ++i) {
        const R mu = coefficient<R>(c), s = static_cast<R>(c.range(1, 32) / 8.0);
        x.push_back(U(mu, s));
        X.push_back(U(std::ldexp(mu, j), std::ldexp(s, j)));
        NOTE(c, "x" << i << " = " << mu << " +- " << s);
    }
    std::vector<U> y, Y;
    for (int a = 0; a < m; ++a) {
        U f = R(0), F = R(0);
        const bool in_place = c.chance(1, 2);
        std::ostringstream o;
        for (int i = 0; i < n; ++i) {
            const R q = coefficient<R>(c);
            if (q == 0) continue;
            o << " + " << q << " x" << i;
            // the power is applied in two steps, that do not overflow
            const R p1 = std::ldexp(R(1), k[a] / 2), p2 = std::ldexp(R(1), k[a] - k[a] / 2);
            if (in_place) { f += q * x[i]; F += p2 * (q * (p1 * X[i])); }
            else { f = f + x[i] * q; F = F + X[i] * p1 * q * p2; }
        }
        NOTE(c, "y" << a << " =" << o.str() << ", multiplied by 2^" << k[a]);
        y.push_back(f);
        Y.push_back(F);
    }
    for (int a = 0; a < m; ++a) {
        const std::string who = "y" + std::to_string(a);
        const R s = y[a].s(), v = var(y[a]);
        expect_scaled<R>(c, Y[a].n(), y[a].n(), total[a], std::abs(y[a].n()) + 32, "the mean of " + who);
        expect_scaled<R>(c, Y[a].s(), s, total[a], s, "the standard deviation of " + who);
        expect_scaled<R>(c, std::ldexp(var(Y[a]), -total[a]), v, total[a], v, "the variance of " + who);
        for (int i = 0; i < n; ++i) {
            const R g = y[a].grad(x[i]);
            expect_scaled<R>(c, Y[a].grad(X[i]), g, total[a] - j, std::abs(g), "the derivative of " + who + " with respect to x" + std::to_string(i));
        }
        for (int b = 0; b < m; ++b) {
            const R t = y[b].s();
            expect_scaled<R>(c, std::ldexp(cov(Y[a], Y[b]), -total[a]), cov(y[a], y[b]), total[b], s * t, "the covariance of " + who + " and y" + std::to_string(b));
            if (s == 0 || t == 0) continue;
            expect_scaled<R>(c, corr(Y[a], Y[b]), corr(y[a], y[b]), 0, 1, "the correlation of " + who + " and y" + std::to_string(b));
            if (a != b && cov(y[a], y[b]) != 0 && (total[a] > 50 || total[a] < -50)) c.nontrivial();
        }
    }
}

LAW(scaled_first, 100000, 1500000, "linear combinations at first order, of variables multiplied by powers of two and multiplied themselves by powers of two: means, deviations, variances, derivatives, covariances and correlations; non-trivial: two correlated results, one scaled by more than 2^50") {
    if (c.chance(1, 2)) scaled1<double>(c); else scaled1<float>(c);
}

// quadratic forms
template<typename U>
static void scaled2(pbt::Case &c) {
    using R = typename U::real_type;
    const int lim = std::numeric_limits<R>::max_exponent / 4 - 16;
    const int n = c.range(1, 4), j = c.range(-lim, lim);
    NOTE(c, n << " variables multiplied by 2^" << j << (sizeof(R) == 4 ? ", float" : ", double"));
    std::vector<U> x, X;
    for (int i = 0; i < n; ++i) {
        const R mu = coefficient<R>(c), s = static_cast<R>(c.range(8, 16) / 8.0);
        // moments of two values
        const R p = static_cast<R>(c.range(4, 12) / 16.0), u = std::sqrt((1 - p) / p), d = -std::sqrt(p / (1 - p));
        std::array<R, 6> mom;
        for (int q = 0; q < 6; ++q) mom[q] = p * std::pow(u, R(q + 3)) + (1 - p) * std::pow(d, R(q + 3));
        x.push_back(U(mu, s, mom, -1));
        X.push_back(U(std::ldexp(mu, j), std::ldexp(s, j), mom, -1));
        NOTE(c, "x" << i << " = " << mu << " +- " << s << ", two values, probability " << p);
    }
    const int m = 2;
    std::vector<U> y, Y;
    int k[2];
    for (int a = 0; a < m; ++a) {
        k[a] = c.range(-lim, lim);
        U f = R(0), F = R(0);
        std::ostringstream o;
        for (int i = 0; i < n; ++i) {
            const R q = coefficient<R>(c), h = c.chance(1, 2) ? coefficient<R>(c) : R(0);
            if (q == 0 && h == 0) continue;
            f = f + unary(x[i], R(0), q, h);
            F = F + unary(X[i], R(0), std::ldexp(q, -j), std::ldexp(h, -2 * j));
            o << " + " << q << " x" << i << " + " << h / 2 << " x" << i << "^2";
        }
        for (int i = 1; i < n; ++i) {
            if (c.chance(1, 2)) continue;
            const R h = coefficient<R>(c);
            f = f + binary(x[i - 1], x[i], R(0), R(0), R(0), R(0), R(0), h);
            F = F + binary(X[i - 1], X[i], R(0), R(0), R(0), R(0), R(0), std::ldexp(h, -2 * j));
            o << " + " << h << " x" << i - 1 << " x" << i;
        }
        F = F * U(std::ldexp(R(1), k[a]));
        NOTE(c, "y" << a << " =" << o.str() << ", divided accordingly and multiplied by 2^" << k[a]);
        y.push_back(f);
        Y.push_back(F);
    }
    for (int a = 0; a < m; ++a) {
        const std::string who = "y" + std::to_string(a);
        // size of what may cancel
        R z = 0;
        for (int i = 0; i < n; ++i) {
            const R g = y[a].grad(x[i]) * x[i].s();
            z += std::abs(g);
            for (int l = 0; l < n; ++l) z += std::abs(y[a].hess(x[i], x[l]) * x[i].s() * x[l].s());
        }
        z *= 4;
        R w = 1;
        for (int o = 1; o <= 4; ++o) {
            w *= z;
            R lib = Y[a].m(o);
            for (int q = 1; q < o; ++q) lib = std::ldexp(lib, -k[a]);
            expect_scaled<R>(c, lib, y[a].m(o), k[a], w, "m(" + std::to_string(o) + ") of " + who);
        }
        expect_scaled<R>(c, Y[a].n(), y[a].n(), k[a], z, "n() of " + who);
        const R v = y[a].m(2);
        if (v > z * z * R(1e-2)) {
            expect_scaled<R>(c, Y[a].s(), y[a].s(), k[a], z * 100, "the standard deviation of " + who);
            expect_scaled<R>(c, Y[a].skew(), y[a].skew(), 0, R(1e5), "the skewness of " + who);
            expect_scaled<R>(c, Y[a].kurt(), y[a].kurt(), 0, R(1e6), "the kurtosis of " + who);
            if (k[a] > lim / 2 || k[a] < -lim / 2) c.nontrivial();
        }
        for (int i = 0; i < n; ++i) {
            const R g = y[a].grad(x[i]);
            expect_scaled<R>(c, Y[a].grad(X[i]), g, k[a] - j, std::abs(g) + z / 16, "the derivative of " + who + " with respect to x" + std::to_string(i));
        }
        if (a == 1) {
            R zz = z;
            for (int i = 0; i < n; ++i) { zz += 4 * std::abs(y[0].grad(x[i]) * x[i].s()); for (int l = 0; l < n; ++l) zz += 4 * std::abs(y[0].hess(x[i], x[l]) * x[i].s() * x[l].s()); }
            expect_scaled<R>(c, std::ldexp(cov(Y[0], Y[1]), -k[0]), cov(y[0], y[1]), k[1], zz * zz, "the covariance of y0 and y1");
            if (y[0].m(2) > zz * zz * R(1e-3) && v > zz * zz * R(1e-3)) expect_scaled<R>(c, corr(Y[0], Y[1]), corr(y[0], y[1]), 0, R(1e5), "the correlation of y0 and y1");
        }
    }
}

LAW(scaled_second, 60000, 900000, "quadratic forms at second order, of variables multiplied by powers of two and multiplied themselves by powers of two, float and double, both modes: moments, mean, deviation, skewness, kurtosis, derivatives, covariance and correlation; non-trivial: a scale beyond the square root of those for which the fourth moment is a normal number") {
    switch (c.below(4)) {
    case 0: scaled2<unc::udouble2e>(c); break;
    case 1: scaled2<unc::udouble2m>(c); break;
    case 2: scaled2<unc::ufloat2e>(c); break;
    default: scaled2<unc::ufloat2m>(c);
    }
}

// matrices
template<typename R>
static void scaled_m(pbt::Case &c) {
    using U = unc::UReal<R>;
    const int lim = std::numeric_limits<R>::max_exponent / 2 - 24;
    const int n = c.range(1, 6), k = c.range(-lim, lim);
    std::vector<R> a(n * n), v(n * n), mu(n), one(n * n), sigma(n);
    for (auto &q : a) q = coefficient<R>(c);
    for (int i = 0; i < n; ++i) a[i * n + i] += 6;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { R t = 0; for (int l = 0; l < n; ++l) t += a[i * n + l] * a[j * n + l]; one[i * n + j] = t; }
    for (int i = 0; i < n * n; ++i) v[i] = std::ldexp(one[i], 2 * k);
    for (auto &q : mu) q = std::ldexp(coefficient<R>(c), k);
    NOTE(c, n << " variables, covariances multiplied by 2^" << 2 * k << (sizeof(R) == 4 ? ", float" : ", double"));
    if (c.verbose) for (int i = 0; i < n; ++i) { c.notes << "["; for (int j = 0; j < n; ++j) c.notes << (j ? ", " : "") << one[i * n + j]; c.notes << "]\n"; }
    std::vector<U> x;
    try { x = unc::ureals<std::vector<U>>(mu, v); }
    catch (const std::exception &e) { FAIL(c, "rejected: " << e.what()); }
    const auto got = unc::cov_matrix<std::vector<R>>(x), cor = unc::corr_matrix<std::vector<R>>(x);
    R top = 0;
    for (int i = 0; i < n; ++i) top = std::max(top, one[i * n + i]);
    for (int i = 0; i < n; ++i) {
        CHECK_THAT(c, x[i].n() == mu[i], "the mean " << mu[i] << " becomes " << x[i].n());
        for (int j = 0; j < n; ++j) {
            expect_scaled<R>(c, got[i * n + j], one[i * n + j], 2 * k, top, "the covariance");
            if (one[i * n + i] > top * R(1e-3) && one[j * n + j] > top * R(1e-3)) {
                const R q = one[i * n + j] / std::sqrt(one[i * n + i] * one[j * n + j]);
                expect_scaled<R>(c, cor[i * n + j], q, 0, R(1e3), "the correlation");
            }
        }
    }
    // corr2cov, with deviations of different sizes
    std::vector<int> e(n);
    std::vector<R> s(n), r(n * n);
    for (int i = 0; i < n; ++i) { e[i] = c.range(-lim, lim); s[i] = std::ldexp(R(1 + i), e[i]); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i * n + j] = i == j ? R(1) : R((i + j) % 5 - 2) / 4;
    const auto w = unc::corr2cov<std::vector<R>>(s, r);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        expect_scaled<R>(c, std::ldexp(w[i * n + j], -e[i]), R(1 + i) * R(1 + j) * r[i * n + j], e[j], R(1 + i) * R(1 + j), "the covariance from corr2cov");
    if (n > 1 && (k > 50 || k < -50)) c.nontrivial();
}

LAW(scaled_matrices, 60000, 900000, "ureals, cov_matrix, corr_matrix, corr2cov with matrices multiplied by powers of two; non-trivial: two or more variables and a scale above 2^50 or below 2^-50") {
    if (c.chance(1, 2)) scaled_m<double>(c); else scaled_m<float>(c);
}
