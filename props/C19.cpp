// C19: the predefined distributions.
#include "../lib/gen.hpp"
#include "../lib/moments1.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <set>

namespace unc = uncertainties;
using R = long double;

template<typename U>
static void compare(pbt::Case &c, const U &x, R mean, R meansize, R s, const Mom9 &z, const std::string &what) {
    using Real = typename U::real_type;
    const R eps(Num<Real>::eps()), tiny(Num<Real>::tiny());
    const R tol = 600 * eps;
    CHECK_THAT(c, std::fabs(R(x.n()) - mean) <= 8 * eps * meansize + tiny, what << " has mean " << x.n() << ", expected " << mean);
    CHECK_THAT(c, std::fabs(R(x.first_order_n()) - mean) <= 8 * eps * meansize + tiny, what << " has first order mean " << x.first_order_n() << ", expected " << mean);
    CHECK_THAT(c, std::fabs(R(x.s()) - s) <= 16 * eps * meansize + 16 * eps * s + tiny, what << " has deviation " << x.s() << ", expected " << s);
    CHECK_THAT(c, x.isindep() && x.indepid() > 0, what << " is not an independent variable");
    if (s == 0) return;
    CHECK_THAT(c, std::fabs(R(x.skew()) - z.m[3]) <= tol * z.a[3] + tol, what << " has skewness " << x.skew() << ", expected " << z.m[3]);
    CHECK_THAT(c, std::fabs(R(x.kurt()) - z.m[4]) <= tol * z.a[4], what << " has kurtosis " << x.kurt() << ", expected " << z.m[4]);
    CHECK_THAT(c, x.grad(x) == 1 && x.hess(x, x) == 0, what << " has derivatives with respect to itself " << x.grad(x) << ", " << x.hess(x, x));
    // a quadratic function, with the two terms of similar sizes; the reference
    // takes the deviation the variable has
    const R sd = x.s();
    const double g0 = c.chance(1, 3) ? 0 : gen_double(c, 1), h0 = c.chance(1, 5) ? 0 : gen_double(c, 1);
    const Real g = Real(g0 / sd), h = Real(h0 / sd / sd);
    const U y = unary(x, Real(1.5), g, Real(2 * h));
    const QuadMoments q = QuadMoments::of(z, R(g) * sd, R(h) * sd * sd);
    for (int n = 1; n <= 4; ++n) {
        const R got = y.m(n);
        CHECK_THAT(c, std::fabs(got - q.m[n]) <= tol * q.size[n] + tiny, "m(" << n << ") of " << g << " x + " << h << " x^2, with x " << what << ", is " << got << ", expected " << q.m[n]);
    }
    if (g0 != 0 && h0 != 0) c.nontrivial();
    const R cv = cov(y, x), want = sd * (R(g) * sd + R(h) * sd * sd * z.m[3]);
    CHECK_THAT(c, std::fabs(cv - want) <= tol * sd * (std::fabs(R(g)) * sd + std::fabs(R(h)) * sd * sd * z.a[3]) + tiny, "cov(y, x) is " << cv << ", expected " << want);
}

template<typename U>
static void distribution(pbt::Case &c) {
    using Real = typename U::real_type;
    const int e = sizeof(Real) == 4 ? 3 : 15;
    std::set<unc::Id> ids;
    const int n = c.range(1, 3);
    std::vector<U> all;
    for (int k = 0; k < n; ++k) {
        std::ostringstream ss;
        ss.precision(12);
        U x;
        switch (c.range(0, 2)) {
        case 0: {
            const Real mu = Num<Real>::make(c, gen_double(c, e));
            const Real sigma = c.chance(1, 20) ? Real(0) : Num<Real>::make(c, gen_positive(c, e));
            ss << "normal(" << mu << ", " << sigma << ") in " << Num<Real>::name();
            NOTE(c, ss.str());
            x = unc::distr::normal<U>(mu, sigma);
            // the mean does not influence the deviation
            compare(c, x, mu, std::fabs(mu), sigma, Mom9::normal(), ss.str());
            const R dev = x.s();
            CHECK_THAT(c, std::fabs(dev - R(sigma)) <= 4 * Num<Real>::eps() * R(sigma), ss.str() << " has deviation " << dev);
            c.label("normal");
            break;
        }
        case 1: {
            const Real a = Num<Real>::make(c, gen_double(c, e));
            Real b;
            switch (c.range(0, 3)) {
            case 0: b = Num<Real>::make(c, gen_double(c, e)); break;
            case 1: b = a + Num<Real>::make(c, gen_positive(c, 1)); break;
            case 2: b = a; break;
            default: b = -a;
            }
            const Real l = std::min(a, b), r = std::max(a, b);
            ss << "uniform(" << l << ", " << r << ") in " << Num<Real>::name();
            NOTE(c, ss.str());
            x = unc::distr::uniform<U>(l, r);
            compare(c, x, (R(l) + R(r)) / 2, std::fabs(l) + std::fabs(r), (R(r) - R(l)) / std::sqrt(R(12)), Mom9::uniform(), ss.str());
            c.label("uniform");
            break;
        }
        default: {
            int kk = 0;
            switch (c.range(0, 3)) {
            case 0: kk = c.range(1, 10); break;
            case 1: kk = c.range(1, 200); break;
            case 2: kk = c.range(1, 100000); break;
            default: kk = c.range(1, 2147483646) + 1;
            }
            ss << "chisquare(" << kk << ") in " << Num<Real>::name();
            NOTE(c, ss.str());
            x = unc::distr::chisquare<U>(kk);
            compare(c, x, kk, kk, std::sqrt(2 * R(kk)), Mom9::chisquare(kk), ss.str());
            c.label("chisquare");
        }
        }
        CHECK_THAT(c, ids.insert(x.indepid()).second, "the variable has the same id as one made before");
        for (auto &y : all) CHECK_THAT(c, cov(x, y) == 0, "two variables made by different calls are correlated");
        all.push_back(x);
    }
}

template<typename U>
static void invalid(pbt::Case &c) {
    using Real = typename U::real_type;
    const int e = sizeof(Real) == 4 ? 3 : 15;
    std::ostringstream ss;
    ss.precision(20);
    bool threw = false;
    const int kind = c.range(0, 3);
    try {
        switch (kind) {
        case 0: {
            const Real mu = Num<Real>::make(c, gen_double(c, e));
            const Real sigma = c.chance(1, 6) ? -std::numeric_limits<Real>::denorm_min() : -Num<Real>::make(c, gen_positive(c, e));
            ss << "normal(" << mu << ", " << sigma << ")";
            NOTE(c, ss.str());
            c.nontrivial();
            unc::distr::normal<U>(mu, sigma);
            break;
        }
        case 1: {
            Real a = Num<Real>::make(c, gen_double(c, e));
            Real b = c.chance(1, 3) ? Num<Real>::make(c, gen_double(c, e)) : c.chance(1, 2) ? std::nextafter(a, std::numeric_limits<Real>::infinity()) : -a;
            if (a == b) throw pbt::Discard{};
            if (a < b) std::swap(a, b);
            // a difference that underflows once divided by sqrt(12) is 0
            if (a - b < 1000 * std::numeric_limits<Real>::denorm_min()) throw pbt::Discard{};
            ss << "uniform(" << a << ", " << b << ")";
            NOTE(c, ss.str());
            c.nontrivial();
            unc::distr::uniform<U>(a, b);
            break;
        }
        case 2: {
            const int k = c.chance(1, 10) ? -2147483647 - 1 : c.chance(1, 2) ? -c.range(1, 100) : -c.range(1, 2147483647);
            ss << "chisquare(" << k << ")";
            NOTE(c, ss.str());
            c.nontrivial();
            unc::distr::chisquare<U>(k);
            break;
        }
        default: {
            const U x = unc::distr::chisquare<U>(0);
            CHECK_THAT(c, x.n() == 0 && x.s() == 0 && x.m(2) == 0 && x.m(3) == 0 && x.m(4) == 0, "chisquare(0) is not the number 0");
            CHECK_THAT(c, x.isindep() && x.indepid() == 0, "chisquare(0) has id " << x.indepid());
            bool t = false;
            try { (void)x.grad(x); } catch (const std::invalid_argument &) { t = true; }
            CHECK_THAT(c, t, "it is possible to derive with respect to chisquare(0)");
            return;
        }
        }
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    CHECK_THAT(c, threw, ss.str() << " does not throw invalid_argument");
}

template<template<typename> class F>
static void dispatch(pbt::Case &c) {
    switch (c.range(0, 5)) {
    case 0: F<unc::UReal2E<double>>::run(c); break;
    case 1: F<unc::UReal2M<double>>::run(c); break;
    case 2: F<unc::UReal2E<float>>::run(c); break;
    case 3: F<unc::UReal2M<float>>::run(c); break;
    case 4: F<unc::UReal2E<long double>>::run(c); break;
    default: F<unc::UReal2M<long double>>::run(c); break;
    }
}
template<typename U> struct Dist { static void run(pbt::Case &c) { distribution<U>(c); } };
template<typename U> struct Inv { static void run(pbt::Case &c) { invalid<U>(c); } };

LAW(moments, 600000, 20000000, "normal, uniform, chisquare with random parameters: mean, deviation, skewness, kurtosis, and the four moments of a random quadratic function; non-trivial: with both terms") { dispatch<Dist>(c); }
LAW(parameters, 100000, 2000000, "invalid parameters are rejected, a null chisquare is the number 0") { dispatch<Inv>(c); }
