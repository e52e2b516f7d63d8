// C24: derivatives with respect to a variable.
#include "../lib/prog2.hpp"
#include "../lib/wide.hpp"
#include <stdexcept>

using Ref = long double;
using E = Err<Ref>;
using D = Dual<Ref>;

// the only variable x is a function of, or -1 if it is exact, -2 if dependent
static int sole(const D &x) {
    int k = -1;
    for (int i = 0; i < x.n; ++i) if (x.in[i]) { if (k >= 0) return -2; k = i; }
    return k;
}
static bool sharp(const E &x) { return rabs(x.v) > Ref(1e-8) && x.e < Ref(1e-4) * rabs(x.v); }

template<typename U> struct HasHess { static constexpr bool value = false; };
template<typename Real, unc::Prop p> struct HasHess<unc::UReal2<Real, p>> { static constexpr bool value = true; };

template<typename U>
static bool grad_throws(const U &f, const U &x) {
    try { (void)f.grad(x); } catch (const std::invalid_argument &) { return true; }
    return false;
}
template<typename U>
static bool hess_throws(const U &f, const U &x, const U &y) {
    try { (void)f.hess(x, y); } catch (const std::invalid_argument &) { return true; }
    return false;
}

template<typename U>
static void grads(pbt::Case &c, const Program<Ref> &p, const std::vector<U> &v) {
    const auto &m = p.model;
    for (std::size_t a = 0; a < v.size(); ++a) {
        const int k = sole(m[a]);
        if (k < 0) {
            const std::size_t f = c.below(v.size());
            CHECK_THAT(c, grad_throws(v[f], v[a]), "v" << f << ".grad(v" << a << ") does not throw, but v" << a << (k == -1 ? " is exact" : " is a function of more variables"));
            c.label(k == -1 ? "with respect to an exact number" : "with respect to a dependent variable");
            continue;
        }
        if (!sharp(m[a].g[k])) continue;
        if (a >= p.ind.size()) c.label("with respect to a function of one variable");
        for (std::size_t f = 0; f < v.size(); ++f) {
            const Ref g = v[f].grad(v[a]);
            if (!m[f].in[k]) {
                CHECK_THAT(c, g == 0, "v" << f << ".grad(v" << a << ") is " << g << ", but v" << f << " does not depend on v" << k);
                c.label(sole(m[f]) == -1 ? "derivative of an exact number" : "derivative with respect to something else");
                continue;
            }
            const E want = m[f].g[k] / m[a].g[k];
            CHECK_THAT(c, near<Ref>(g, want), "v" << f << ".grad(v" << a << ") is " << g << ", expected " << want.v << " +- " << want.e);
            if (a >= p.ind.size() && f >= p.ind.size() && f != a && sole(m[f]) == -2) c.nontrivial();
        }
    }
}

template<typename U>
static void hessians(pbt::Case &c, const Program<Ref> &p, const std::vector<U> &v) {
    const auto &m = p.model;
    const int tries = 12;
    for (int q = 0; q < tries; ++q) {
        const std::size_t f = c.below(v.size()), a = c.below(v.size()), b = c.chance(1, 3) ? a : c.below(v.size());
        const int k = sole(m[a]), l = sole(m[b]);
        const std::string what = "v" + std::to_string(f) + ".hess(v" + std::to_string(a) + ", v" + std::to_string(b) + ")";
        if (k < 0 || l < 0) {
            CHECK_THAT(c, hess_throws(v[f], v[a], v[b]) && hess_throws(v[f], v[b], v[a]), what << " (or the same with exchanged arguments) does not throw, but one of the arguments is exact or dependent");
            c.label("hess with respect to a wrong variable");
            continue;
        }
        if (!sharp(m[a].g[k]) || !sharp(m[b].g[l])) continue;
        E want;
        if (k != l) {
            want = m[f].in[k] && m[f].in[l] ? m[f].hess(k, l) / (m[a].g[k] * m[b].g[l]) : E(0);
        } else {
            const E &ga = m[a].g[k], &gb = m[b].g[k], &ha = m[a].hess(k, k), &hb = m[b].hess(k, k);
            const E dg = ga - gb, dh = ha - hb;
            const bool differ = rabs(dg.v) > 10 * dg.e || rabs(dh.v) > 10 * dh.e;
            if (differ) {
                CHECK_THAT(c, hess_throws(v[f], v[a], v[b]) && hess_throws(v[f], v[b], v[a]), what << " does not throw, but the arguments are different functions of v" << k);
                c.label("different functions of the same variable");
                continue;
            }
            if (a != b) {
                // equal up to rounding, or exactly
                if (hess_throws(v[f], v[a], v[b])) { c.label("almost the same function"); continue; }
            }
            want = m[f].in[k] ? (m[f].hess(k, k) - m[f].g[k] / ga * ha) / (ga * ga) : E(0);
            if (a >= p.ind.size() && ha.v != 0) c.label("hess with respect to a nonlinear function of one variable");
        }
        const Ref h = v[f].hess(v[a], v[b]), t = v[f].hess(v[b], v[a]);
        if (zero(want)) {
            CHECK_THAT(c, h == 0 && t == 0, what << " is " << h << ", " << t << " instead of 0");
        } else {
            CHECK_THAT(c, near<Ref>(h, want), what << " is " << h << ", expected " << want.v << " +- " << want.e);
            CHECK_THAT(c, near<Ref>(t, want), what << " with exchanged arguments is " << t << ", expected " << want.v << " +- " << want.e);
            if (a >= p.ind.size() && b >= p.ind.size()) c.nontrivial();
        }
    }
}

template<typename U, bool second> struct Run2 {
    static void go(pbt::Case &, const Program<Ref> &, const std::vector<U> &) {}
};
template<typename U> struct Run2<U, true> {
    static void go(pbt::Case &c, const Program<Ref> &p, const std::vector<U> &v) { hessians(c, p, v); }
};

template<typename U>
static void run(pbt::Case &c) {
    using Real = typename U::real_type;
    // long double is compared to the precision of double
    ErrEnv<Ref>::eps = std::max<Ref>(std::numeric_limits<Real>::epsilon(), std::numeric_limits<double>::epsilon());
    ErrEnv<Ref>::tiny = std::max<Ref>(std::numeric_limits<Real>::denorm_min(), std::numeric_limits<double>::denorm_min()) * 64;
    Weights2 w;
    // many functions of one variable
    w.scalar = 8; w.fun = 6; w.custom = 6; w.constant = 2; w.copy = 2; w.neg = 3; w.arith = 10;
    w.max_ind = 3;
    w.max_ops = 12;
    w.bound = 1e4;
    Program<Ref> p;
    p.generate(c, w);
    MakeU<U> make;
    std::vector<U> v = exec<U>(p, make);
    // the representation may depend on what was asked before
    for (auto &x : v) if (c.chance(1, 3)) (void)x.s();
    grads(c, p, v);
    Run2<U, HasHess<U>::value>::go(c, p, v);
}

LAW(first_order, 150000, 1500000, "UReal: every result of a random program derived with respect to every other; non-trivial: a result of more variables derived with respect to a function of one") {
    switch (c.range(0, 2)) {
    case 0: run<unc::udouble>(c); break;
    case 1: run<unc::UReal<float>>(c); break;
    default: run<unc::UReal<long double>>(c); break;
    }
}
LAW(second_order, 150000, 1500000, "UReal2: the same and second derivatives; non-trivial: a result derived with respect to functions of one variable") {
    switch (c.range(0, 3)) {
    case 3: run<unc::UReal2E<long double>>(c); break;
    case 0: run<unc::udouble2e>(c); break;
    case 1: run<unc::udouble2m>(c); break;
    default: run<unc::UReal2M<float>>(c); break;
    }
}
LAW(wide, 100000, 400000, "UReal: linear combinations of up to 100 variables, all the numbers integer; all derivatives are equal; non-trivial: a result depending on ten or more variables") {
    wide::Setup<unc::udouble, false> s;
    s.generate(c, c.chance(1, 10) ? 100 : 24, [](int, double m, double sd) { return unc::udouble(m, sd); });
    s.check_values(c);
    for (std::size_t k = s.n; k < s.u.size(); ++k) {
        int z = 0;
        for (double g : s.q[k].g) z += g != 0;
        if (z >= 10) c.nontrivial();
    }
}

template<typename U>
static void many_second(pbt::Case &c) {
    wide::Setup<U, true> s;
    s.generate(c, c.chance(1, 200) ? 120 : c.chance(1, 20) ? 50 : 16, [&](int, double m, double sd) { return U(m, sd, std::array<typename U::real_type, 6>{0, 3, 0, 15, 0, 105}); });
    s.check_values(c);
    s.check_hess(c);
    for (std::size_t k = s.n; k < s.u.size(); ++k) if (s.q[k].h.size() >= 10) c.nontrivial();
    // with respect to a multiple of a variable
    const std::size_t k = c.below(s.u.size());
    const int i = c.range(0, s.n - 1), j = c.range(0, s.n - 1);
    const double f = c.pick({2.0, -0.5, -4.0}), g = c.pick({2.0, -0.5, -4.0});
    const U x = s.u[i] * U(f), y = s.u[j] * U(i == j ? f : g);
    const double d = s.u[k].grad(x), h = s.u[k].hess(x, y), want = s.q[k].hess(i, j) / (f * (i == j ? f : g));
    CHECK_THAT(c, d == s.q[k].g[i] / f, "the derivative of r" << k << " with respect to " << f << " x" << i << " is " << d << ", expected " << s.q[k].g[i] / f);
    CHECK_THAT(c, h == want, "the second derivative of r" << k << " with respect to multiples of x" << i << ", x" << j << " is " << h << ", expected " << want);
}
LAW(wide_second, 20000, 150000, "UReal2: polynomials of up to 50 (rarely 120) variables with any pattern of products, and functions of them, all the numbers integer; all first and second derivatives are equal; non-trivial: ten or more non-null second derivatives") {
    if (c.chance(1, 2)) many_second<unc::udouble2e>(c); else many_second<unc::udouble2m>(c);
}
