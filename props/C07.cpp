// C07: value and derivative of the mathematical functions, first order.
#include "../lib/funcs.hpp"

using T = __float128;
// limits of the type: machine epsilon, and a number near the smallest one
template<typename Real> static T eps_of() { return std::numeric_limits<Real>::epsilon(); }
template<typename Real> static T mini_of() { return std::is_same<Real, float>::value ? T(1e-35) : T(1e-300); }
template<typename Real> static bool fits(const T &x) { return !std::is_same<Real, float>::value || (rf::abs(x) < T(1e15) && (x == 0 || rf::abs(x) > T(1e-15))); }

static std::string str(T x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.22Qg", x); return b; }

template<typename Real>
static void expect(pbt::Case &c, Real lib, const T &ref, const T &tol, const std::string &what) {
    const T d = rf::abs(T(T(lib) - ref));
    if (!(d <= tol + mini_of<Real>())) FAIL(c, what << " is " << lib << ", expected " << str(ref) << " +- " << str(tol));
}

static double dev(pbt::Case &c) { return c.chance(1, 2) ? 1 : c.chance(1, 2) ? 0.5 : gen_uniform(c, 0.01, 3); }

template<typename U>
static void one(pbt::Case &c) {
    using Real = typename U::real_type;
    const T EPS = eps_of<Real>(), MINI = mini_of<Real>();
    const int k = static_cast<int>(c.below(n_f1));
    const Real x = static_cast<Real>(f1_arg(c, k, true));
    D1<T> r;
    if (!f1_derivs<T>(k, T(x), r) || !fits<Real>(r.f) || !fits<Real>(r.d[1]) || !fits<Real>(r.d[2])) throw pbt::Discard{};
    const std::string name = f1_name(k);
    c.label(name);
    const Real s = static_cast<Real>(dev(c));
    T e1, e2;
    f1_extra(k, r, e1, e2);
    const T tol = 64 * EPS * (rf::abs(r.d[1]) + rf::abs(x) * rf::abs(r.d[2]) + e1) + 2 * r.e[1] + MINI;
    NOTE(c, name << "(x), x = " << x << " +- " << s);
    const U X(x, s), Y(static_cast<Real>(gen_double(c, 1)), Real(1.5));
    const U f = f1_lib(k, X);
    expect(c, f.n(), r.f, 16 * EPS * rf::abs(r.f) + r.e[0], "the mean of " + name);
    expect(c, cov(f, X), r.d[1] * s * s, tol * s * s, "cov(" + name + "(x), x)");
    expect(c, f.s(), rf::abs(r.d[1]) * s, tol * s, "the standard deviation of " + name);
    CHECK_THAT(c, f.indepid() == X.indepid(), "the id of " << name << "(x) is " << f.indepid() << ", not " << X.indepid());
    CHECK_THAT(c, cov(f, Y) == 0, "cov(" << name << "(x), y) is " << cov(f, Y));
    if (rf::abs(r.d[1]) > 1e-6 && rf::abs(T(rf::abs(r.d[1]) - 1)) > 1e-6) c.nontrivial();
    // of a dependent variable with the same mean
    const Real a = static_cast<Real>(gen_double(c, 1)), b = static_cast<Real>(gen_double(c, 1));
    const U Z = binary(X, Y, x, a, b);
    const U g = f1_lib(k, Z);
    expect(c, g.n(), r.f, 16 * EPS * rf::abs(r.f) + r.e[0], "the mean of " + name + " of a dependent variable");
    expect(c, cov(g, X), r.d[1] * a * s * s, 2 * tol * rf::abs(T(a)) * s * s, "cov(" + name + "(z), x)");
    expect(c, cov(Y, g), r.d[1] * b * 2.25, 2 * tol * rf::abs(T(b)) * 2.25, "cov(y, " + name + "(z))");
    // of an exact number
    const U q = f1_lib(k, U(x));
    expect(c, q.n(), r.f, 16 * EPS * rf::abs(r.f) + r.e[0], "the mean of " + name + " of an exact number");
    CHECK_THAT(c, q.s() == 0, "the standard deviation of " << name << " of an exact number is " << q.s());
}
LAW(one_argument, 800000, 6000000, "functions of one argument at random points of their domains, of independent and dependent variables; non-trivial: a derivative that is neither null nor one") { one<unc::udouble>(c); }

template<typename U>
static void two(pbt::Case &c) {
    using Real = typename U::real_type;
    const T EPS = eps_of<Real>(), MINI = mini_of<Real>();
    const int k = static_cast<int>(c.below(n_f2));
    const int mode = c.range(0, 3);   // both, first exact, second exact, dependent
    const bool exact_y = k == f_pow && mode == 2 && c.chance(1, 2);
    double x0 = 0, y0 = 0;
    f2_args(c, k, true, exact_y, x0, y0);
    Real x = static_cast<Real>(x0), y = static_cast<Real>(y0);
    D2<T> r;
    if (!f2_derivs<T>(k, T(x), T(y), r, exact_y)) throw pbt::Discard{};
    for (const T &z : {r.f, r.d[0], r.d[1], r.d[2], r.d[3], r.d[4]}) if (!fits<Real>(z)) throw pbt::Discard{};
    const std::string name = f2_name(k);
    c.label(name);
    const Real s = static_cast<Real>(dev(c)), t = static_cast<Real>(dev(c));
    NOTE(c, name << "(x, y), x = " << x << " +- " << s << ", y = " << y << " +- " << t << (mode == 1 ? ", x exact" : mode == 2 ? ", y exact" : mode == 3 ? ", dependent" : ""));
    const T tx = 64 * EPS * (rf::abs(r.d[0]) + r.s[0]) + 2 * r.e[0] + MINI, ty = 64 * EPS * (rf::abs(r.d[1]) + r.s[1]) + 2 * r.e[1] + MINI;
    const T tf = 16 * EPS * r.fs + MINI;
    const U X(x, s), Y(y, t);
    const std::string cx = "cov(" + name + "(x, y), x)", cy = "cov(" + name + "(x, y), y)";
    if (mode == 0) {
        const U f = f2_lib(k, X, Y);
        expect(c, f.n(), r.f, tf, "the mean of " + name);
        expect(c, cov(f, X), r.d[0] * s * s, tx * s * s, cx);
        expect(c, cov(f, Y), r.d[1] * t * t, ty * t * t, cy);
        const T v = r.d[0] * r.d[0] * s * s + r.d[1] * r.d[1] * t * t;
        const T tv = 2 * (rf::abs(r.d[0]) + tx) * tx * s * s + 2 * (rf::abs(r.d[1]) + ty) * ty * t * t + 16 * EPS * v;
        expect(c, var(f), v, tv, "the variance of " + name);
    } else if (mode == 1) {
        const U f = f2_lib(k, U(x), Y);
        expect(c, f.n(), r.f, tf, "the mean of " + name);
        CHECK_THAT(c, cov(f, X) == 0, cx << " is " << cov(f, X));
        expect(c, cov(Y, f), r.d[1] * t * t, ty * t * t, cy);
        expect(c, f.s(), rf::abs(r.d[1]) * t, ty * t, "the standard deviation of " + name);
    } else if (mode == 2) {
        const U f = f2_lib(k, X, U(y));
        expect(c, f.n(), r.f, tf, "the mean of " + name);
        CHECK_THAT(c, cov(f, Y) == 0, cy << " is " << cov(f, Y));
        expect(c, cov(f, X), r.d[0] * s * s, tx * s * s, cx);
        expect(c, f.s(), rf::abs(r.d[0]) * s, tx * s, "the standard deviation of " + name);
    } else {
        const Real a = static_cast<Real>(gen_double(c, 1)), b = static_cast<Real>(gen_double(c, 1)), p = static_cast<Real>(gen_double(c, 1)), q = static_cast<Real>(gen_double(c, 1));
        const U A(1, s), B(2, t);
        const U u = binary(A, B, x, a, b), v = c.chance(1, 3) ? unary(A, y, p) : binary(B, A, y, q, p);
        const Real q0 = v.isindep() ? 0 : q;
        const U f = f2_lib(k, u, v);
        expect(c, f.n(), r.f, tf, "the mean of " + name + " of dependent variables");
        expect(c, cov(f, A), (r.d[0] * a + r.d[1] * p) * s * s, 2 * (tx * rf::abs(T(a)) + ty * rf::abs(T(p)) + 8 * EPS * (rf::abs(r.d[0] * a) + rf::abs(r.d[1] * p))) * s * s, "the covariance of " + name + " of dependent variables with the first of them");
        expect(c, cov(f, B), (r.d[0] * b + r.d[1] * q0) * t * t, 2 * (tx * rf::abs(T(b)) + ty * rf::abs(T(q0)) + 8 * EPS * (rf::abs(r.d[0] * b) + rf::abs(r.d[1] * q0))) * t * t, "the covariance of " + name + " of dependent variables with the second of them");
    }
    auto busy = [](const T &d) { return rf::abs(d) > 1e-6 && rf::abs(T(rf::abs(d) - 1)) > 1e-6; };
    if (busy(r.d[1]) && (busy(r.d[0]) || k == f_fmod || k == f_remainder)) c.nontrivial();
}
LAW(two_arguments, 400000, 3000000, "functions of two arguments: both independent, one of them exact, both dependent on the same variables; non-trivial: two derivatives neither null nor one") { two<unc::udouble>(c); }

template<typename U>
static void same(pbt::Case &c) {
    using Real = typename U::real_type;
    const T EPS = eps_of<Real>(), MINI = mini_of<Real>();
    const int k = c.chance(1, 4) ? (c.chance(1, 2) ? f_fmax : f_fmin) : f_pow + static_cast<int>(c.below(3));
    const Real x = static_cast<Real>(k == f_pow ? gen_uniform(c, 0.05, 6) : gen_signed(c, -10, 10)), s = static_cast<Real>(dev(c));
    const std::string name = f2_name(k);
    c.label(name);
    T f, d, tf, td;
    if (k == f_fmax || k == f_fmin) { f = x; d = 1; tf = 0; td = 8 * EPS; }
    else {
        D2<T> r;
        if (!f2_derivs<T>(k, x, x, r, false)) throw pbt::Discard{};
        f = r.f; d = r.d[0] + r.d[1];
        tf = 16 * EPS * r.fs;
        td = 64 * EPS * (rf::abs(r.d[0]) + r.s[0] + rf::abs(r.d[1]) + r.s[1]) + 2 * (r.e[0] + r.e[1]) + MINI;
    }
    NOTE(c, name << "(x, x), x = " << x << " +- " << s);
    const U X(x, s);
    const U y = f2_lib(k, X, X), copy = X, z = f2_lib(k, X, copy);
    for (const U *u : {&y, &z}) {
        expect(c, u->n(), f, tf, "the mean of " + name + "(x, x)");
        expect(c, cov(*u, X), d * s * s, td * s * s, "cov(" + name + "(x, x), x)");
        expect(c, u->s(), rf::abs(d) * s, td * s, "the standard deviation of " + name + "(x, x)");
        CHECK_THAT(c, u->isindep(), name << "(x, x) is not independent");
    }
    if (rf::abs(d) > 1e-6 && rf::abs(T(d - 1)) > 1e-6) c.nontrivial();
}
LAW(same_variable, 160000, 1000000, "functions of two arguments that are the same variable; non-trivial: the sum of the derivatives is neither null nor one") { same<unc::udouble>(c); }

LAW(types, 150000, 1500000, "the three above with float and long double") {
    switch (c.range(0, 5)) {
    case 0: one<unc::ufloat>(c); break;
    case 1: one<unc::UReal<long double>>(c); break;
    case 2: two<unc::ufloat>(c); break;
    case 3: two<unc::UReal<long double>>(c); break;
    case 4: same<unc::ufloat>(c); break;
    default: same<unc::UReal<long double>>(c); break;
    }
}
