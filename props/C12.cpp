// C12: the two propagation modes.
#include "../lib/second.hpp"
#include "../lib/wide.hpp"
#include "../lib/funcs.hpp"
#include <uncertainties/io.hpp>

using Ref = long double;
using A = unc::udouble2e;
using B = unc::udouble2m;

static bool same(double a, double b, double scale) {
    if (std::isnan(a) && std::isnan(b)) return true;
    return a == b || std::fabs(a - b) <= 64 * 2.3e-16 * scale;
}

template<typename Real>
static void run(pbt::Case &c, const Weights2 &w) {
    using A = unc::UReal2<Real, unc::Prop::est>;
    using B = unc::UReal2<Real, unc::Prop::mean>;
    const bool single = std::is_same<Real, float>::value;
    const Ref eps = single ? Num<float>::eps() : Num<double>::eps(), tiny = single ? 1e-30L : 0;
    // double is the precision with which long double is compared
    const auto same = [eps, tiny](Ref a, Ref b, Ref scale) {
        if (std::isnan(a) && std::isnan(b)) return true;
        return a == b || std::fabs(a - b) <= 64 * eps * scale + tiny;
    };
    Setup<A> s;
    if (single) { s.eps = eps; s.tiny = Num<float>::tiny(); }
    s.generate(c, w, 4);
    const std::vector<A> &a = s.v;
    const std::vector<B> b = exec<B>(s.p, [&](int i, const Ind &x) { return s.template make<B>(i, x); });
    const std::size_t n0 = s.p.ind.size();
    for (std::size_t k = 0; k < a.size(); ++k) {
        const A &x = a[k];
        const B &y = b[k];
        const std::string who = "v" + std::to_string(k);
        CHECK_THAT(c, same(x.first_order_n(), y.first_order_n(), std::fabs(x.first_order_n())), "first_order_n() of " << who << " is " << x.first_order_n() << " in mode est and " << y.first_order_n() << " in mode mean");
        for (std::size_t i = 0; i < n0; ++i) {
            const Ref gx = x.grad(a[i]), gy = y.grad(b[i]);
            CHECK_THAT(c, same(gx, gy, std::fabs(gx)), "the derivative of " << who << " is " << gx << " in mode est and " << gy << " in mode mean");
            for (std::size_t j = 0; j < n0; ++j) {
                const Ref hx = x.hess(a[i], a[j]), hy = y.hess(b[i], b[j]);
                CHECK_THAT(c, same(hx, hy, std::fabs(hx)), "the second derivative of " << who << " is " << hx << " in mode est and " << hy << " in mode mean");
            }
        }
        // the moments do not depend on the mode; the scale is what cancels in the computation
        const Moments4 r = moments_of(s.dist, s.quad(k), eps);
        for (int q = 1; q <= 4; ++q) {
            const Ref mx = x.m(q), my = y.m(q);
            CHECK_THAT(c, std::fabs(mx - my) <= r.e[q] + tiny, "m(" << q << ") of " << who << " is " << mx << " in mode est and " << my << " in mode mean");
            CHECK_THAT(c, std::fabs(mx - r.m[q]) <= r.e[q] + tiny, "m(" << q << ") of " << who << " is " << mx << ", expected " << r.m[q]);
        }
        // n() = first order mean -+ m(1)
        const Ref mx = Ref(x.first_order_n()) - x.m(1), my = Ref(y.first_order_n()) + y.m(1);
        const Ref scale = std::fabs(Ref(x.first_order_n())) + std::fabs(Ref(x.m(1)));
        CHECK_THAT(c, same(x.n(), mx, scale), "n() of " << who << " in mode est is " << x.n() << ", expected " << mx);
        CHECK_THAT(c, same(y.n(), my, scale), "n() of " << who << " in mode mean is " << y.n() << ", expected " << my);
        CHECK_THAT(c, same(unc::nom(x), x.n(), scale) && same(unc::nom(y), y.n(), scale), "nom() of " << who << " is not n()");
        CHECK_THAT(c, same(unc::sdev(x), x.s(), std::fabs(x.s())) && same(unc::sdev(y), y.s(), std::fabs(y.s())), "sdev() of " << who << " is not s()");
        CHECK_THAT(c, same(var(x), x.m(2), std::fabs(x.m(2))) && same(var(y), y.m(2), std::fabs(y.m(2))), "var() of " << who << " is not m(2)");
        if (x.m(2) > (single ? 1e-12L : 0)) {
            CHECK_THAT(c, same(x.s() * x.s(), x.m(2), x.m(2)) && same(y.s() * y.s(), y.m(2), y.m(2)), "s() of " << who << " is not the square root of m(2)");
            // formatting is that of the pair (n(), s()): same text as a first order variable
            const unc::UReal<Real> fx(x.n(), x.s()), fy(y.n(), y.s());
            const float ed = c.pick({1.5f, 2.0f, 3.0f});
            CHECK_THAT(c, unc::format(x, ed) == unc::format(fx, ed), who << " in mode est is formatted " << unc::format(x, ed) << ", expected " << unc::format(fx, ed));
            CHECK_THAT(c, unc::format(y, ed) == unc::format(fy, ed), who << " in mode mean is formatted " << unc::format(y, ed) << ", expected " << unc::format(fy, ed));
            if (k >= n0 && std::fabs(x.m(1)) > 1e-6 * std::fabs(x.first_order_n())) { c.nontrivial(); }
        }
        // covariances
        for (std::size_t j = 0; j < k; ++j) {
            const Moments4 rj = moments_of(s.dist, s.quad(j), eps);
            const Ref cx = cov(a[k], a[j]), cy = cov(b[k], b[j]);
            // |cov| error is at most of the order of the geometric mean of those of the variances
            const Ref tol = std::sqrt(r.e[2] * rj.e[2]) + 500 * eps * std::fabs(r.m[1] * rj.m[1]) + tiny;
            CHECK_THAT(c, std::fabs(cx - cy) <= tol, "cov(" << who << ", v" << j << ") is " << cx << " in mode est and " << cy << " in mode mean");
        }
    }
}

LAW(modes, 30000, 400000, "the same random program with mode est and mean: first order mean, derivatives, moments, covariances equal; n() differs by the sign of m(1); nom, sdev, var and formatting consistent; non-trivial: a computed result with a relevant correction") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 3;
    w.max_ops = 8;
    run<double>(c, w);
}
LAW(modes_types, 12000, 150000, "the same with float and long double") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 3;
    w.max_ops = 8;
    if (c.chance(1, 2)) run<float>(c, w); else run<long double>(c, w);
}

// a variable and itself in the other mode: `from` is the sign of the mode of x
template<typename U, typename V>
static void converted(pbt::Case &c, const U &x, const V &y, Ref eps, const std::string &who) {
    const Ref fx = x.first_order_n(), fy = y.first_order_n(), m1 = x.m(1);
    const Ref sign = U::prop_mode == unc::Prop::est ? -1 : 1;
    const Ref tol = 16 * eps * (std::fabs(fx) + std::fabs(m1));
    CHECK_THAT(c, fx == fy, "first_order_n() of " << who << " is " << fx << " and becomes " << fy << " in the other mode");
    CHECK_THAT(c, std::fabs(x.n() - (fx + sign * m1)) <= tol, "n() of " << who << " is " << x.n() << ", expected " << fx + sign * m1);
    CHECK_THAT(c, std::fabs(y.n() - (fx - sign * m1)) <= tol, "n() of " << who << " converted to the other mode is " << y.n() << ", expected " << fx - sign * m1);
    for (int q = 1; q <= 4; ++q) CHECK_THAT(c, std::fabs(Ref(x.m(q)) - y.m(q)) <= 4 * eps * std::fabs(Ref(x.m(q))), "m(" << q << ") of " << who << " is " << x.m(q) << " and becomes " << y.m(q) << " in the other mode");
    // (a null variance may be rounded to a negative number)
    if (x.m(2) > 0) CHECK_THAT(c, std::fabs(Ref(x.s()) - y.s()) <= 4 * eps * std::fabs(Ref(x.s())), "s() of " << who << " is " << x.s() << " and becomes " << y.s() << " in the other mode");
}

template<typename Real, unc::Prop p, unc::Prop other>
static void conversions(pbt::Case &c) {
    using U = unc::UReal2<Real, p>;
    using V = unc::UReal2<Real, other>;
    const Ref eps = std::numeric_limits<Real>::epsilon();
    Setup<U> s;
    s.eps = std::max<Ref>(eps, Num<double>::eps());
    s.tiny = std::max<Ref>(Ref(Num<Real>::tiny()), Num<double>::tiny());
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 3;
    w.max_ops = 6;
    s.generate(c, w, 4);
    c.label(Num<Real>::name());
    // the same program in the other mode, each variable sometimes going back
    // and forth
    std::vector<V> t;
    for (auto &x : s.v) {
        if (c.chance(1, 3)) { U z = x; (void)z.m(2); t.push_back(V(z)); }
        else t.push_back(V(x));
    }
    const std::size_t n0 = s.p.ind.size();
    for (std::size_t k = 0; k < s.v.size(); ++k) {
        const std::string who = "v" + std::to_string(k);
        converted(c, s.v[k], t[k], eps, who);
        const U b(t[k]);
        converted(c, b, t[k], eps, who + " (converted twice)");
        CHECK_THAT(c, std::fabs(Ref(b.n()) - s.v[k].n()) <= 16 * eps * (std::fabs(Ref(b.first_order_n())) + std::fabs(Ref(b.m(1)))), "n() of " << who << " is " << s.v[k].n() << " and becomes " << b.n() << " going to the other mode and back");
        for (std::size_t i = 0; i < n0; ++i) {
            CHECK_THAT(c, same(s.v[k].grad(s.v[i]), t[k].grad(t[i]), 0), "the derivative of " << who << " is " << s.v[k].grad(s.v[i]) << " and becomes " << t[k].grad(t[i]) << " in the other mode");
            for (std::size_t j = 0; j < n0; ++j)
                CHECK_THAT(c, same(s.v[k].hess(s.v[i], s.v[j]), t[k].hess(t[i], t[j]), 0), "the second derivative of " << who << " is " << s.v[k].hess(s.v[i], s.v[j]) << " and becomes " << t[k].hess(t[i], t[j]) << " in the other mode");
        }
        if (k >= n0 && std::fabs(Ref(b.m(1))) > 1e-3L * std::fabs(Ref(b.first_order_n()))) c.nontrivial();
    }
    // the computation goes on after the conversion
    const std::size_t a = c.below(s.v.size()), b = c.below(s.v.size());
    const int op = c.range(0, 3);
    auto f = [op](auto x, auto y) { using T = decltype(x); return op == 0 ? T(x + y) : op == 1 ? T(x - y) : op == 2 ? T(x * y) : T(unary(x, Real(3), Real(2), Real(-1))); };
    converted(c, f(s.v[a], s.v[b]), f(t[a], t[b]), eps, "a function of v" + std::to_string(a) + " and v" + std::to_string(b));
}
LAW(conversions, 30000, 400000, "results converted to the other mode (float, double, long double), alone and as operands: first order mean, derivatives and moments the same, n() with the other sign of the correction; non-trivial: a computed result with a relevant correction") {
    constexpr unc::Prop e = unc::Prop::est, m = unc::Prop::mean;
    switch (c.range(0, 5)) {
    case 0: conversions<double, e, m>(c); break;
    case 1: conversions<double, m, e>(c); break;
    case 2: conversions<float, e, m>(c); break;
    case 3: conversions<float, m, e>(c); break;
    case 4: conversions<long double, e, m>(c); break;
    default: conversions<long double, m, e>(c); break;
    }
}

template<typename U, typename V>
static void many(pbt::Case &c) {
    wide::Setup<U, true> s;
    MakeU<U> make;
    make.kind.push_back(2);
    s.generate(c, 16, [&](int, double m, double sd) { return make(0, Ind {m, sd}); });
    for (std::size_t k = 0; k < s.u.size(); ++k) {
        const std::string who = "r" + std::to_string(k);
        // the mean correction is half the sum of the second derivatives times the variances
        Ref m1 = 0, size = 0;
        for (int i = 0; i < s.n; ++i) {
            const Ref sd = s.u[i].s(), t = s.q[k].hess(i, i) * sd * sd / 2;
            m1 += t;
            size += std::fabs(t);
        }
        CHECK_THAT(c, std::fabs(m1 - s.u[k].m(1)) <= 1e-13L * size, "m(1) of " << who << " is " << s.u[k].m(1) << ", expected " << m1);
        converted(c, s.u[k], V(s.u[k]), std::numeric_limits<double>::epsilon(), who);
        int used = 0;
        for (double g : s.q[k].g) used += g != 0;
        if (used >= 6 && m1 != 0) c.nontrivial();
    }
}
LAW(many, 8000, 60000, "functions of up to 16 variables: n() in either mode against the sum of the diagonal second derivatives; non-trivial: six or more variables and a non-null correction") {
    if (c.chance(1, 2)) many<A, B>(c); else many<B, A>(c);
}

// every function, of variables with any correction of the mean
static void functions(pbt::Case &c) {
    const bool two = c.chance(1, 2);
    const int k = static_cast<int>(c.below(two ? n_f2 : n_f1));
    double x = 0, y = 0;
    if (two) f2_args(c, k, true, false, x, y); else x = f1_arg(c, k, true);
    const std::string name = two ? f2_name(k) : f1_name(k);
    const double s = gen_uniform(c, 0.1, 3), t = gen_uniform(c, 0.1, 3);
    double h[10];
    for (int i = 0; i < 4; ++i) h[i] = gen_uniform(c, -2, 2);
    for (int i = 4; i < 10; ++i) h[i] = c.pick({0.0, 0.0, 1.0, -1.0, 50.0, -50.0});
    MakeU<A> ma;
    MakeU<B> mb;
    ma.kind = {c.range(0, 3), c.range(0, 3)};
    mb.kind = ma.kind;
    NOTE(c, name << " at " << x << ", " << y << " of functions of two variables with deviations " << s << ", " << t);
    c.label(name);
    auto eval = [&](auto p, auto q) {
        const auto u = binary(p, q, x, h[0], h[1], h[4], h[5], h[6]), v = binary(p, q, y, h[2], h[3], h[7], h[8], h[9]);
        return two ? f2_lib(k, u, v) : f1_lib(k, u);
    };
    const A pa = ma(0, Ind {1, s}), qa = ma(1, Ind {2, t});
    const B pb = mb(0, Ind {1, s}), qb = mb(1, Ind {2, t});
    const A a = eval(pa, qa);
    const B b = eval(pb, qb);
    CHECK_THAT(c, same(a.first_order_n(), b.first_order_n(), std::fabs(a.first_order_n())), "first_order_n() of " << name << " is " << a.first_order_n() << " in mode est and " << b.first_order_n() << " in mode mean");
    CHECK_THAT(c, same(a.grad(pa), b.grad(pb), std::fabs(a.grad(pa))) && same(a.grad(qa), b.grad(qb), std::fabs(a.grad(qa))), "the first derivatives of " << name << " are " << a.grad(pa) << ", " << a.grad(qa) << " in mode est and " << b.grad(pb) << ", " << b.grad(qb) << " in mode mean");
    const double ha[] = {a.hess(pa, pa), a.hess(pa, qa), a.hess(qa, qa)}, hb[] = {b.hess(pb, pb), b.hess(pb, qb), b.hess(qb, qb)};
    for (int i = 0; i < 3; ++i) CHECK_THAT(c, same(ha[i], hb[i], std::fabs(ha[i])), "a second derivative of " << name << " is " << ha[i] << " in mode est and " << hb[i] << " in mode mean");
    if (!(std::fabs(a.m(1)) < 1e300)) throw pbt::Discard{};
    const double scale = std::fabs(a.first_order_n()) + std::fabs(ha[0]) * s * s + std::fabs(ha[2]) * t * t;
    CHECK_THAT(c, same(a.m(1), b.m(1), scale), "m(1) of " << name << " is " << a.m(1) << " in mode est and " << b.m(1) << " in mode mean");
    CHECK_THAT(c, same(a.n(), a.first_order_n() - a.m(1), scale) && same(b.n(), b.first_order_n() + b.m(1), scale), "n() of " << name << " is " << a.n() << " in mode est and " << b.n() << " in mode mean, first_order_n() " << a.first_order_n() << ", m(1) " << a.m(1));
    if (std::fabs(a.m(1)) > 1e-3 * std::fabs(a.first_order_n())) c.nontrivial();
}
LAW(functions, 200000, 2000000, "every function of one and two arguments in both modes, of dependent variables with arbitrary second derivatives; non-trivial: a relevant correction of the mean") { functions(c); }
