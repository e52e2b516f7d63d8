// C08: value, first and second derivatives of the functions, second order.
#include "../lib/funcs.hpp"

using T = __float128;
// limits of the type: machine epsilon, and a number near the smallest one
template<typename Real> static T eps_of() { return std::numeric_limits<Real>::epsilon(); }
template<typename Real> static T mini_of() { return std::is_same<Real, float>::value ? T(1e-35) : T(1e-300); }
template<typename Real> static bool fits(const T &x) { return !std::is_same<Real, float>::value || (rf::abs(x) < T(1e15) && (x == 0 || rf::abs(x) > T(1e-15))); }

static std::string str(T x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.22Qg", x); return b; }

template<typename Real>
static void expect(pbt::Case &c, Real lib, const T &ref, const T &tol, const std::string &what) {
    const T d = rf::abs(T(T(lib) - ref));
    if (!(d <= tol + mini_of<Real>())) FAIL(c, what << " is " << lib << ", expected " << str(ref) << " +- " << str(tol));
}

static double dev(pbt::Case &c) { return c.chance(1, 2) ? 1 : c.chance(1, 2) ? 0.5 : gen_uniform(c, 0.1, 3); }

template<typename U>
static void one(pbt::Case &c) {
    using Real = typename U::real_type;
    const T EPS = eps_of<Real>(), MINI = mini_of<Real>();
    static const std::array<Real, 6> normal6 {0, 3, 0, 15, 0, 105};
    const int k = static_cast<int>(c.below(n_f1));
    const Real x = static_cast<Real>(f1_arg(c, k, true));
    D1<T> r;
    if (!f1_derivs<T>(k, T(x), r) || !fits<Real>(r.f) || !fits<Real>(r.d[1]) || !fits<Real>(r.d[2])) throw pbt::Discard{};
    const std::string name = f1_name(k);
    c.label(name);
    const Real s = static_cast<Real>(dev(c)), t = static_cast<Real>(dev(c));
    T e1, e2;
    f1_extra(k, r, e1, e2);
    const T ax = rf::abs(T(x));
    const T t1 = 64 * EPS * (rf::abs(r.d[1]) + ax * rf::abs(r.d[2]) + e1) + 2 * r.e[1] + MINI;
    const T t2 = 64 * EPS * (rf::abs(r.d[2]) + ax * rf::abs(r.d[3]) + e2) + 2 * r.e[2] + 64 * EPS * ax * r.e[3] + MINI;
    const T tf = 16 * EPS * rf::abs(r.f) + r.e[0];
    NOTE(c, name << "(x), x = " << x << " +- " << s);
    const U X(x, s, normal6, -1), Y(Real(1.25), t, normal6, -1);
    const U f = f1_lib(k, X);
    expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name);
    expect(c, f.grad(X), r.d[1], t1, "the first derivative of " + name);
    expect(c, f.hess(X, X), r.d[2], t2, "the second derivative of " + name);
    CHECK_THAT(c, f.indepid() == X.indepid(), "the id of " << name << "(x) is " << f.indepid() << ", not " << X.indepid());
    // of the sum x + y, which has no second derivatives, and of a product
    const Real a = static_cast<Real>(gen_uniform(c, 0.5, 2)), b = static_cast<Real>(gen_uniform(c, 0.5, 2)), h = static_cast<Real>(gen_uniform(c, -2, 2));
    const U Z = binary(X, Y, x, a, b, Real(0), Real(0), h);
    const U g = f1_lib(k, Z);
    expect(c, g.first_order_n(), r.f, tf, "first_order_n() of " + name + " of a dependent variable");
    expect(c, g.grad(X), r.d[1] * a, 2 * t1 * a, "the first derivative of " + name + " of a dependent variable");
    expect(c, g.grad(Y), r.d[1] * b, 2 * t1 * b, "the first derivative of " + name + " of a dependent variable");
    expect(c, g.hess(X, X), r.d[2] * a * a, 2 * t2 * a * a, "the second derivative of " + name + " of a dependent variable");
    expect(c, g.hess(X, Y), r.d[2] * a * b + r.d[1] * h, 2 * t2 * a * b + 2 * t1 * rf::abs(T(h)) + 8 * EPS * (rf::abs(r.d[2] * a * b) + rf::abs(r.d[1] * h)), "the mixed derivative of " + name + " of a dependent variable");
    expect(c, g.hess(Y, Y), r.d[2] * b * b, 2 * t2 * b * b, "the second derivative of " + name + " of a dependent variable");
    const U q = f1_lib(k, U(x));
    expect(c, q.first_order_n(), r.f, tf, "the mean of " + name + " of an exact number");
    CHECK_THAT(c, q.s() == 0, "the standard deviation of " << name << " of an exact number is " << q.s());
    if (rf::abs(r.d[2]) > 1e-6) c.nontrivial();
}

LAW(one_argument, 450000, 5000000, "functions of one argument, both propagation modes; non-trivial: a second derivative that is not null") {
    if (c.chance(1, 2)) one<unc::udouble2e>(c); else one<unc::udouble2m>(c);
}

template<typename U>
static void two(pbt::Case &c) {
    using Real = typename U::real_type;
    const T EPS = eps_of<Real>(), MINI = mini_of<Real>();
    static const std::array<Real, 6> normal6 {0, 3, 0, 15, 0, 105};
    const int k = c.chance(1, 3) ? static_cast<int>(c.below(n_f2)) : f_pow + static_cast<int>(c.below(3));
    const int mode = c.range(0, 4);   // both, first exact, second exact, dependent, same variable
    const bool exact_y = k == f_pow && mode == 2 && c.chance(1, 2);
    double x0 = 0, y0 = 0;
    f2_args(c, k, mode < 3, exact_y, x0, y0);
    Real x = static_cast<Real>(x0), y = static_cast<Real>(y0);
    if (mode == 4) {
        if (k == f_fmod || k == f_remainder || k == f_fmax || k == f_fmin) throw pbt::Discard{};
        y = x;
    }
    D2<T> r;
    if (!f2_derivs<T>(k, T(x), T(y), r, exact_y)) throw pbt::Discard{};
    for (const T &z : {r.f, r.d[0], r.d[1], r.d[2], r.d[3], r.d[4]}) if (!fits<Real>(z)) throw pbt::Discard{};
    const std::string name = f2_name(k);
    c.label(name);
    const Real s = static_cast<Real>(dev(c)), t = static_cast<Real>(dev(c));
    static const char *modes[] = {"", ", x exact", ", y exact", ", both dependent on a and b", ", y is x"};
    NOTE(c, name << "(x, y), x = " << x << " +- " << s << ", y = " << y << " +- " << t << modes[mode]);
    T tol[5];
    for (int i = 0; i < 5; ++i) tol[i] = 64 * EPS * (rf::abs(r.d[i]) + r.s[i]) + 2 * r.e[i] + MINI;
    const T tf = 16 * EPS * r.fs + MINI;
    const U X(x, s, normal6, -1), Y(y, t, normal6, -1);
    auto d1 = [&](const char *wrt, const char *what) { return std::string("the derivative of ") + name + what + " with respect to " + wrt; };
    if (mode == 0) {
        const U f = f2_lib(k, X, Y);
        expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name);
        expect(c, f.grad(X), r.d[0], tol[0], d1("x", ""));
        expect(c, f.grad(Y), r.d[1], tol[1], d1("y", ""));
        expect(c, f.hess(X, X), r.d[2], tol[2], d1("x, x", ""));
        expect(c, f.hess(Y, Y), r.d[3], tol[3], d1("y, y", ""));
        expect(c, f.hess(X, Y), r.d[4], tol[4], d1("x, y", ""));
        expect(c, f.hess(Y, X), r.d[4], tol[4], d1("y, x", ""));
        if (rf::abs(r.d[4]) > 1e-9) c.nontrivial();
    } else if (mode == 1) {
        const U f = f2_lib(k, U(x), Y);
        expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name);
        expect(c, f.grad(Y), r.d[1], tol[1], d1("y", ""));
        expect(c, f.hess(Y, Y), r.d[3], tol[3], d1("y, y", ""));
        CHECK_THAT(c, f.grad(X) == 0 && f.hess(X, X) == 0 && f.hess(X, Y) == 0, name << " depends on a variable that it is not a function of");
        if (rf::abs(r.d[3]) > 1e-9) c.nontrivial();
    } else if (mode == 2) {
        const U f = f2_lib(k, X, U(y));
        expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name);
        expect(c, f.grad(X), r.d[0], tol[0], d1("x", ""));
        expect(c, f.hess(X, X), r.d[2], tol[2], d1("x, x", ""));
        CHECK_THAT(c, f.grad(Y) == 0 && f.hess(Y, Y) == 0 && f.hess(X, Y) == 0, name << " depends on a variable that it is not a function of");
        if (rf::abs(r.d[2]) > 1e-9) c.nontrivial();
    } else if (mode == 3) {
        const Real a = static_cast<Real>(gen_uniform(c, -2, 2)), b = static_cast<Real>(gen_uniform(c, -2, 2)), p = static_cast<Real>(gen_uniform(c, -2, 2)), q = static_cast<Real>(gen_uniform(c, -2, 2));
        const U A(1, s, normal6, -1), B(2, t, normal6, -1);
        const U u = binary(A, B, x, a, b, Real(0), Real(0), Real(0)), v = binary(A, B, y, p, q, Real(0), Real(0), Real(0));
        const U f = f2_lib(k, u, v);
        auto chain1 = [&](Real m, Real n, Real lib, const char *w) {
            expect(c, lib, r.d[0] * m + r.d[1] * n, 2 * (tol[0] * rf::abs(T(m)) + tol[1] * rf::abs(T(n))) + 8 * EPS * (rf::abs(r.d[0] * m) + rf::abs(r.d[1] * n)), d1(w, " of dependent variables"));
        };
        auto chain2 = [&](Real m, Real n, Real m2, Real n2, Real lib, const char *w) {
            const T z[3] = {T(m) * m2, T(n) * n2, T(m) * n2 + T(n) * m2};
            const T za[3] = {rf::abs(z[0]), rf::abs(z[1]), rf::abs(T(T(m) * n2)) + rf::abs(T(T(n) * m2))};
            T ref = 0, tl = 0;
            for (int i = 0; i < 3; ++i) { ref += r.d[2 + i] * z[i]; tl += 2 * tol[2 + i] * za[i] + 16 * EPS * rf::abs(r.d[2 + i]) * za[i]; }
            expect(c, lib, ref, tl, d1(w, " of dependent variables"));
        };
        expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name);
        chain1(a, p, f.grad(A), "a");
        chain1(b, q, f.grad(B), "b");
        chain2(a, p, a, p, f.hess(A, A), "a, a");
        chain2(a, p, b, q, f.hess(A, B), "a, b");
        chain2(b, q, b, q, f.hess(B, B), "b, b");
        c.nontrivial();
    } else {
        const U copy = X;
        const U f = c.chance(1, 2) ? f2_lib(k, X, X) : f2_lib(k, X, copy);
        expect(c, f.first_order_n(), r.f, tf, "first_order_n() of " + name + "(x, x)");
        expect(c, f.grad(X), r.d[0] + r.d[1], 2 * (tol[0] + tol[1]), d1("x", "(x, x)"));
        expect(c, f.hess(X, X), r.d[2] + r.d[3] + 2 * r.d[4], 2 * (tol[2] + tol[3] + 2 * tol[4]), d1("x, x", "(x, x)"));
        CHECK_THAT(c, f.isindep(), name << "(x, x) is not independent");
        if (rf::abs(r.d[4]) > 1e-9) c.nontrivial();
    }
}

LAW(two_arguments, 250000, 3000000, "functions of two arguments, both propagation modes: independent, one exact, both dependent on the same variables, the same variable; non-trivial: the mixed derivative (if one is exact, the second derivative) is not null") {
    if (c.chance(1, 2)) two<unc::udouble2e>(c); else two<unc::udouble2m>(c);
}

LAW(types, 120000, 1500000, "the two above with float and long double") {
    switch (c.range(0, 5)) {
    case 0: one<unc::UReal2<float, unc::Prop::est>>(c); break;
    case 1: one<unc::UReal2<long double, unc::Prop::est>>(c); break;
    case 2: one<unc::UReal2<float, unc::Prop::mean>>(c); break;
    case 3: one<unc::UReal2<long double, unc::Prop::mean>>(c); break;
    case 4: two<unc::UReal2<float, unc::Prop::est>>(c); break;
    default: two<unc::UReal2<long double, unc::Prop::est>>(c); break;
    }
}
