// C13: second order variables agree with first order ones.
#include "../lib/prog2.hpp"
#include "../lib/wide.hpp"
#include "../lib/funcs.hpp"

using Ref = long double;

template<typename U2>
static void run(pbt::Case &c, const Weights2 &w, bool linear) {
    using Real = typename U2::real_type;
    using U1 = unc::UReal<Real>;
    // long double is compared to the precision of double
    const bool single = std::is_same<Real, float>::value;
    ErrEnv<Ref>::eps = single ? Num<float>::eps() : Num<double>::eps();
    ErrEnv<Ref>::tiny = single ? Num<float>::tiny() : Num<double>::tiny();
    // factor between the error that is relevant and that of the type
    const Ref well = single ? 1e3L : 1e6L;
    Program<Ref> p;
    p.generate(c, w);
    MakeU<U2> make;
    for (std::size_t i = 0; i < p.ind.size(); ++i) make.kind.push_back(c.range(0, 3));
    const auto a = exec<U1>(p, MakeU<U1>());
    const auto b = exec<U2>(p, make);
    const std::size_t n = p.ind.size();
    std::vector<Err<Ref>> vars;
    for (std::size_t k = 0; k < a.size(); ++k) {
        const auto &m = p.model[k];
        CHECK_THAT(c, near<Ref>(Ref(a[k].n()) - b[k].first_order_n() + m.v.v, m.v, 4), "the mean of v" << k << " is " << a[k].n() << " at first order and first_order_n() is " << b[k].first_order_n());
        for (std::size_t i = 0; i < n; ++i) {
            const Real ga = a[k].grad(a[i]), gb = b[k].grad(b[i]);
            CHECK_THAT(c, near<Ref>(Ref(ga) - gb + m.g[i].v, m.g[i], 4), "the derivative of v" << k << " with respect to v" << i << " is " << ga << " at first order and " << gb << " at second order");
        }
        if (k >= n && m.support() > 1) c.nontrivial();
        if (linear) {
            Err<Ref> v(0);
            for (std::size_t i = 0; i < n; ++i) { const Err<Ref> t = m.g[i] * Err<Ref>(Ref(p.ind[i].s)); v = v + t * t; }
            vars.push_back(v);
            const Real va = var(a[k]), vb = var(b[k]);
            CHECK_THAT(c, near<Ref>(Ref(va) - vb + v.v, v, 4), "the variance of v" << k << " is " << va << " at first order and " << vb << " at second order");
            const Real sa = a[k].s(), sb = b[k].s();
            const Err<Ref> sd = sqrt(v);
            CHECK_THAT(c, near<Ref>(Ref(sa) - sb + sd.v, sd, 4), "the standard deviation of v" << k << " is " << sa << " at first order and " << sb << " at second order");
            CHECK_THAT(c, std::fabs(Ref(b[k].n()) - b[k].first_order_n()) <= 50 * ErrEnv<Ref>::eps * std::fabs(Ref(b[k].n())), "a linear computation has n() = " << b[k].n() << " and first_order_n() = " << b[k].first_order_n());
            for (std::size_t j = 0; j < k; ++j) {
                Err<Ref> cv(0);
                for (std::size_t i = 0; i < n; ++i) cv = cv + m.g[i] * p.model[j].g[i] * Err<Ref>(Ref(p.ind[i].s)) * Err<Ref>(Ref(p.ind[i].s));
                const Real ca = cov(a[k], a[j]), cb = cov(b[k], b[j]);
                CHECK_THAT(c, near<Ref>(Ref(ca) - cb + cv.v, cv, 4), "the covariance of v" << k << ", v" << j << " is " << ca << " at first order and " << cb << " at second order");
                const Ref ss = std::sqrt(v.v * vars[j].v);
                if (v.v > well * v.e && vars[j].v > well * vars[j].e && v.v > 0 && vars[j].v > 0) {
                    const Real ra = corr(a[k], a[j]), rb = corr(b[k], b[j]);
                    const Ref tol = 8 * (cv.e / ss + v.e / v.v + vars[j].e / vars[j].v);
                    CHECK_THAT(c, std::fabs(Ref(ra) - rb) <= tol, "the correlation of v" << k << ", v" << j << " is " << ra << " at first order and " << rb << " at second order");
                }
            }
        }
    }
}

LAW(any, 60000, 1500000, "the same random program on UReal and UReal2 (both modes): mean and first derivatives; non-trivial: a result depending on two or more variables") {
    Weights2 w;
    w.max_ops = 14;
    if (c.chance(1, 2)) run<unc::udouble2e>(c, w, false); else run<unc::udouble2m>(c, w, false);
}
LAW(linear, 60000, 1500000, "linear programs: also standard deviation, variance, covariances and correlations; non-trivial: a result depending on two or more variables") {
    Weights2 w;
    w.nonlinear = false;
    w.max_ops = 12;
    if (c.chance(1, 2)) run<unc::udouble2e>(c, w, true); else run<unc::udouble2m>(c, w, true);
}
LAW(types, 30000, 700000, "the two above with float and long double") {
    Weights2 w;
    w.nonlinear = c.chance(1, 2);
    w.max_ops = 12;
    switch (c.range(0, 3)) {
    case 0: run<unc::UReal2<float, unc::Prop::est>>(c, w, !w.nonlinear); break;
    case 1: run<unc::UReal2<float, unc::Prop::mean>>(c, w, !w.nonlinear); break;
    case 2: run<unc::UReal2<long double, unc::Prop::est>>(c, w, !w.nonlinear); break;
    default: run<unc::UReal2<long double, unc::Prop::mean>>(c, w, !w.nonlinear); break;
    }
}

// Functions of many variables. The second order parts are lost going to first
// order, so the means and the derivatives are those of the exact model for both.
template<typename U2>
static void many(pbt::Case &c) {
    wide::Setup<U2, true> s;
    MakeU<U2> make;
    make.kind.push_back(c.range(0, 3));
    s.generate(c, c.chance(1, 10) ? 40 : 14, [&](int, double m, double sd) { return make(0, Ind {m, sd}); });
    // the first order expansions: linear, so everything agrees
    std::vector<unc::udouble> a;
    std::vector<U2> b;
    for (int i = 0; i < s.n; ++i) a.push_back(unc::udouble(s.u[i].first_order_n(), s.u[i].s()));
    for (std::size_t k = s.n; k < s.u.size(); ++k) {
        unc::udouble x = s.q[k].v;
        U2 y = s.q[k].v;
        Ref v = 0;
        for (int i = 0; i < s.n; ++i) {
            const double g = s.u[k].grad(s.u[i]);
            CHECK_THAT(c, g == s.q[k].g[i], "the derivative of r" << k << " with respect to x" << i << " is " << g << ", expected " << s.q[k].g[i]);
            if (s.q[k].g[i] == 0 && c.chance(1, 2)) continue;
            x += g * (a[i] - a[i].n());
            y = y + g * (s.u[i] - s.u[i].first_order_n());
            v += Ref(g) * g * s.u[i].s() * s.u[i].s();
        }
        a.push_back(x);
        b.push_back(y);
        CHECK_THAT(c, x.n() == y.first_order_n() && x.n() == s.u[k].first_order_n(), "the mean of r" << k << " is " << x.n() << " at first order, " << y.first_order_n() << " at second order");
        CHECK_THAT(c, std::fabs(Ref(x.s()) - y.s()) <= 1e-13L * std::sqrt(v) && std::fabs(Ref(x.s()) - std::sqrt(v)) <= 1e-13L * std::sqrt(v), "the deviation of the linear part of r" << k << " is " << x.s() << " at first order, " << y.s() << " at second order, expected " << std::sqrt(v));
        for (int i = 0; i < s.n; ++i) {
            CHECK_THAT(c, x.grad(a[i]) == y.grad(s.u[i]) && x.grad(a[i]) == s.q[k].g[i], "the derivative of the linear part of r" << k << " with respect to x" << i << " is " << x.grad(a[i]) << " at first order, " << y.grad(s.u[i]) << " at second order, expected " << s.q[k].g[i]);
            const Ref ca = cov(x, a[i]), cb = cov(y, s.u[i]), want = s.q[k].g[i] * s.u[i].s() * s.u[i].s();
            CHECK_THAT(c, std::fabs(ca - want) <= 1e-13L * std::fabs(want) && std::fabs(cb - want) <= 1e-13L * std::fabs(want), "the covariance of the linear part of r" << k << " with x" << i << " is " << ca << " at first order, " << cb << " at second order, expected " << want);
        }
    }
    for (std::size_t k = 0; k < b.size(); ++k) for (std::size_t j = 0; j < k; ++j) {
        const auto &x = a[s.n + k], &y = a[s.n + j];
        Ref want = 0, size = 0;
        int common = 0;
        for (int i = 0; i < s.n; ++i) {
            const Ref t = Ref(s.q[s.n + k].g[i]) * s.q[s.n + j].g[i] * s.u[i].s() * s.u[i].s();
            want += t; size += std::fabs(t); common += t != 0;
        }
        const Ref ca = cov(x, y), cb = cov(b[k], b[j]);
        CHECK_THAT(c, std::fabs(ca - want) <= 1e-13L * size && std::fabs(cb - want) <= 1e-13L * size, "the covariance of the linear parts of r" << s.n + k << ", r" << s.n + j << " is " << ca << " at first order, " << cb << " at second order, expected " << want);
        if (x.s() > 0 && y.s() > 0) CHECK_THAT(c, std::fabs(Ref(corr(x, y)) - corr(b[k], b[j])) <= 1e-12L * (1 + size / (x.s() * y.s())), "the correlation of the linear parts of r" << s.n + k << ", r" << s.n + j << " is " << corr(x, y) << " at first order, " << corr(b[k], b[j]) << " at second order");
        if (common >= 5) c.nontrivial();
    }
}
LAW(many, 12000, 100000, "functions of up to 40 variables with integer derivatives, and their linear parts on both classes: means, derivatives, deviations, covariances, correlations; non-trivial: two results with five or more variables in common") {
    if (c.chance(1, 2)) many<unc::udouble2e>(c); else many<unc::udouble2m>(c);
}

// Every function of the library on both classes; the tolerances are the
// condition of the derivatives, from the standard functions.
template<typename U2>
static void functions(pbt::Case &c) {
    using U1 = unc::udouble;
    using T = __float128;
    const T eps = std::numeric_limits<double>::epsilon(), mini = 1e-300;
    MakeU<U2> make;
    make.kind = {c.range(0, 3), c.range(0, 3)};
    const double s = c.chance(1, 2) ? 1 : gen_uniform(c, 0.1, 3), t = c.chance(1, 2) ? 1 : gen_uniform(c, 0.1, 3);
    auto close = [&](double a, double b, const T &tol, const std::string &what) {
        CHECK_THAT(c, rf::abs(T(T(a) - b)) <= tol, what << " is " << a << " at first order and " << b << " at second order");
    };
    if (c.chance(1, 2)) {
        const int k = static_cast<int>(c.below(n_f1));
        const double x = f1_arg(c, k, true);
        D1<T> r;
        if (!f1_derivs<T>(k, x, r)) throw pbt::Discard{};
        const std::string name = f1_name(k);
        c.label(name);
        NOTE(c, name << "(x), x = " << x);
        T e1, e2;
        f1_extra(k, r, e1, e2);
        const T t1 = 128 * eps * (rf::abs(r.d[1]) + rf::abs(T(x)) * rf::abs(r.d[2]) + e1) + 2 * r.e[1] + mini;
        const T tf = 32 * eps * rf::abs(r.f) + r.e[0] + mini;
        // of an independent variable, of a dependent one, of an exact number
        const U1 X(x, s), Y(1.5, t);
        const U2 V = make(0, Ind {x, s}), W = make(1, Ind {1.5, t});
        const double a = gen_uniform(c, 0.5, 2), b = gen_uniform(c, -2, 2);
        const U1 f = f1_lib(k, X), g = f1_lib(k, binary(X, Y, x, a, b)), h = f1_lib(k, U1(x));
        const U2 p = f1_lib(k, V), q = f1_lib(k, binary(V, W, x, a, b, c.pick({0.0, 1.0}), 0.0, c.pick({0.0, 1.0}))), o = f1_lib(k, U2(x));
        close(f.n(), p.first_order_n(), tf, "the mean of " + name + "(x)");
        close(g.n(), q.first_order_n(), tf, "the mean of " + name + " of a dependent variable");
        close(h.n(), o.first_order_n(), tf, "the mean of " + name + " of an exact number");
        close(f.grad(X), p.grad(V), t1, "the derivative of " + name + "(x)");
        close(g.grad(X), q.grad(V), t1 * 2, "the derivative of " + name + " of a dependent variable");
        close(g.grad(Y), q.grad(W), t1 * 2, "the derivative of " + name + " of a dependent variable");
        CHECK_THAT(c, h.s() == 0 && o.s() == 0, name << " of an exact number has deviation " << h.s() << " at first order, " << o.s() << " at second order");
        CHECK_THAT(c, f.isindep() == p.isindep() && g.isindep() == q.isindep(), name << ": independent at first order only, or at second order only");
        if (rf::abs(r.d[1]) > 1e-6) c.nontrivial();
        return;
    }
    const int k = static_cast<int>(c.below(n_f2));
    const int mode = c.range(0, 4); // both, x exact, y exact, both dependent, the same
    double x = 0, y = 0;
    const bool exact_y = k == f_pow && mode == 2 && c.chance(1, 2);
    f2_args(c, k, mode < 3, exact_y, x, y);
    if (mode == 4) {
        if (k == f_fmod || k == f_remainder || k == f_fmax || k == f_fmin) throw pbt::Discard{};
        y = x;
    }
    D2<T> r;
    if (!f2_derivs<T>(k, x, y, r, exact_y)) throw pbt::Discard{};
    const std::string name = f2_name(k);
    c.label(name);
    NOTE(c, name << "(x, y), x = " << x << ", y = " << y << ", case " << mode);
    T tol[2];
    for (int i = 0; i < 2; ++i) tol[i] = 128 * eps * (rf::abs(r.d[i]) + r.s[i]) + 2 * r.e[i] + mini;
    const T tf = 32 * eps * r.fs + mini;
    const U1 X(x, s), Y(y, t);
    const U2 V = make(0, Ind {x, s}), W = make(1, Ind {y, t});
    const double a = gen_uniform(c, -2, 2), b = gen_uniform(c, -2, 2), d = gen_uniform(c, -2, 2), e = gen_uniform(c, -2, 2);
    U1 f;
    U2 p;
    T g0 = tol[0], g1 = tol[1];
    switch (mode) {
    case 0: f = f2_lib(k, X, Y); p = f2_lib(k, V, W); break;
    case 1: f = f2_lib(k, U1(x), Y); p = f2_lib(k, U2(x), W); break;
    case 2: f = f2_lib(k, X, U1(y)); p = f2_lib(k, V, U2(y)); break;
    case 3: f = f2_lib(k, binary(X, Y, x, a, b), binary(X, Y, y, d, e)); {
            // the second derivatives, and so the corrections of the means, are arbitrary
            double h[6];
            for (double &z : h) z = c.pick({0.0, 0.0, 1.0, -1.0, 50.0, -50.0});
            p = f2_lib(k, binary(V, W, x, a, b, h[0], h[1], h[2]), binary(V, W, y, d, e, h[3], h[4], h[5]));
        }
        g0 = g1 = 8 * (tol[0] + tol[1]) + 32 * eps * (rf::abs(r.d[0]) + rf::abs(r.d[1]));
        break;
    default: f = f2_lib(k, X, X); p = f2_lib(k, V, V); g0 = 2 * (tol[0] + tol[1]);
    }
    close(f.n(), p.first_order_n(), tf, "the mean of " + name);
    if (mode != 1) close(f.grad(X), p.grad(V), g0, "the derivative of " + name + " with respect to x");
    if (mode != 2 && mode != 4) close(f.grad(Y), p.grad(W), g1, "the derivative of " + name + " with respect to y");
    CHECK_THAT(c, f.isindep() == p.isindep(), name << ": independent at first order only, or at second order only");
    c.nontrivial();
}
LAW(functions, 200000, 2000000, "every function of one and two arguments (independent, exact, dependent, same variable) on both classes: means, derivatives, independence; non-trivial: a derivative that is not null") {
    if (c.chance(1, 2)) functions<unc::udouble2e>(c); else functions<unc::udouble2m>(c);
}
