// C20: validity of the moments given to the constructors.
#include "../lib/discrete.hpp"
#include "../lib/eigen.hpp"
#include "../lib/moments1.hpp"
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <algorithm>

namespace unc = uncertainties;
using R = long double;

// Hankel matrix of moments 0 to 8
struct Hankel {
    R lo = 0, hi = 0, norm = 0;
    explicit Hankel(const std::array<R, 9> &m) {
        std::vector<R> a(25);
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) a[5 * i + j] = m[i + j];
        const auto ev = jacobi_eigenvalues(a, 5);
        lo = *std::min_element(ev.begin(), ev.end());
        hi = *std::max_element(ev.begin(), ev.end());
        norm = std::max(std::fabs(lo), std::fabs(hi));
    }
};

template<typename Real, std::size_t N>
static std::array<R, 9> extend(const std::array<Real, N> &m) {
    std::array<R, 9> r {};
    r[0] = 1;
    if (N == 6) r[2] = 1;
    for (std::size_t k = 0; k < N; ++k) r[9 - N + k] = m[k];
    return r;
}

template<typename Real, std::size_t N>
static std::string show(const std::array<Real, N> &m) {
    std::ostringstream ss;
    ss.precision(std::numeric_limits<Real>::max_digits10);
    ss << "{";
    for (std::size_t k = 0; k < N; ++k) ss << (k ? ", " : "") << m[k];
    ss << "}";
    return ss.str();
}

enum class Outcome { made, rejected };

// either constructor, with the threshold or the default one
template<typename U, typename Real>
static Outcome make(U &x, Real n, Real s, const std::array<Real, 6> &m, const Real *t) {
    try { x = t ? U(n, s, m, *t) : U(n, s, m); } catch (const std::invalid_argument &) { return Outcome::rejected; }
    return Outcome::made;
}
template<typename U, typename Real>
static Outcome make(U &x, Real n, Real, const std::array<Real, 7> &m, const Real *t) {
    try { x = t ? U(n, m, *t) : U(n, m); } catch (const std::invalid_argument &) { return Outcome::rejected; }
    return Outcome::made;
}

template<typename Real> static R sdev_of(Real s, const std::array<Real, 6> &) { return s; }
template<typename Real> static R sdev_of(Real, const std::array<Real, 7> &m) { return std::sqrt(R(m[0])); }

// the moments kept by the variable
template<typename U, typename Real, std::size_t N>
static void kept(pbt::Case &c, const U &x, Real n, Real s, const std::array<Real, N> &given) {
    const R eps(Num<Real>::eps()), tiny(Num<Real>::tiny());
    const R sd = sdev_of(s, given);
    CHECK_THAT(c, R(x.n()) == R(n) && R(x.first_order_n()) == R(n), "the mean is " << x.n() << " instead of " << n);
    CHECK_THAT(c, x.isindep() && x.indepid() > 0, "the variable is not independent");
    if (!(sd > 0)) return;
    Mom9 z;
    const auto ext = extend(given);
    R p = 1;
    for (int k = 0; k <= 8; ++k) { z.m[k] = N == 6 ? ext[k] : ext[k] / p; p *= sd; }
    for (int k = 0; k <= 8; ++k) z.a[k] = std::fabs(z.m[k]);
    for (int k = 1; k < 8; k += 2) z.a[k] = std::max(z.a[k], std::sqrt(z.a[k - 1] * z.a[k + 1]));
    const R tol = 600 * eps;
    CHECK_THAT(c, std::fabs(R(x.s()) - sd) <= 16 * eps * sd + tiny, "the deviation is " << x.s() << " instead of " << sd);
    CHECK_THAT(c, std::fabs(R(x.skew()) - z.m[3]) <= tol * (z.a[3] + 1), "the skewness is " << x.skew() << " instead of " << z.m[3]);
    CHECK_THAT(c, std::fabs(R(x.kurt()) - z.m[4]) <= tol * (z.a[4] + 1), "the kurtosis is " << x.kurt() << " instead of " << z.m[4]);
    const double g0 = c.chance(1, 3) ? 0 : gen_double(c, 1), h0 = gen_double(c, 1);
    const Real g = Real(g0 / sd), h = Real(h0 / sd / sd);
    const U y = unary(x, Real(0), g, Real(2 * h));
    const QuadMoments q = QuadMoments::of(z, R(g) * sd, R(h) * sd * sd);
    for (int k = 1; k <= 4; ++k) {
        const R got = y.m(k);
        CHECK_THAT(c, std::fabs(got - q.m[k]) <= tol * (q.size[k] + 1) + tiny, "m(" << k << ") of " << g << " x + " << h << " x^2 is " << got << ", expected " << q.m[k]);
    }
}

template<typename U, std::size_t N>
static void decide(pbt::Case &c, typename U::real_type n, typename U::real_type s, const std::array<typename U::real_type, N> &m) {
    using Real = typename U::real_type;
    const R eps(Num<Real>::eps());
    for (Real x : m) if (!std::isfinite(x)) throw pbt::Discard{};
    const Hankel H(extend(m));
    const R noise = 100 * eps * H.norm;
    const std::string what = std::string(N == 6 ? "standardized" : "central") + " moments " + show(m) + " in " + Num<Real>::name();
    NOTE(c, what << ", eigenvalues of the Hankel matrix from " << H.lo << " to " << H.hi);
    U x;
    const bool clearly_ok = H.lo > noise, clearly_bad = H.lo < -noise;
    // disabled
    if (c.chance(1, 3)) {
        const Real t = c.pick({Real(-1), Real(-1e-30), -std::numeric_limits<Real>::infinity(), Real(-100)});
        CHECK_THAT(c, make(x, n, s, m, &t) == Outcome::made, what << " are rejected with threshold " << t);
        if (clearly_bad) c.label("disabled");
        kept(c, x, n, s, m);
    }
    if (clearly_ok) {
        c.label("valid");
        c.nontrivial();
        const Real t = c.pick({Real(0), Real(1e-10), Real(1), std::numeric_limits<Real>::min()});
        CHECK_THAT(c, make(x, n, s, m, c.chance(1, 2) ? nullptr : &t) == Outcome::made, what << ", which are possible, are rejected (smallest eigenvalue " << H.lo << ", largest " << H.hi << ")");
        kept(c, x, n, s, m);
    }
    if (clearly_bad) {
        c.label("invalid");
        const Real zero(0);
        CHECK_THAT(c, make(x, n, s, m, c.chance(1, 2) ? nullptr : &zero) == Outcome::rejected, what << ", which are impossible, are accepted (smallest eigenvalue " << H.lo << ", largest " << H.hi << ")");
        const R ratio = -H.lo / H.hi;
        const R slack = noise / std::fabs(H.lo) + noise / H.hi;
        if (H.hi > 0 && slack < 0.005L) {
            c.nontrivial();
            static const double factor[] = {0.99, 0.9, 0.5, 0.1, 1e-3, 1.01, 1.1, 2, 10, 1e3};
            const double f = factor[c.range(0, 9)];
            const Real t = Real(ratio * f);
            const Outcome o = make(x, n, s, m, &t);
            CHECK_THAT(c, o == (f > 1 ? Outcome::made : Outcome::rejected), what << " are " << (o == Outcome::made ? "accepted" : "rejected") << " with threshold " << t << ", while the ratio of the most negative eigenvalue to the largest one is " << -ratio);
            c.label(f > 1 ? "within threshold" : "beyond threshold");
            if (f > 1 && !(N == 7 && m[0] < 0)) kept(c, x, n, s, m);
        }
    }
}

template<typename U>
static void moments(pbt::Case &c) {
    using Real = typename U::real_type;
    const Real n = Num<Real>::make(c, gen_double(c, 3));
    const Real s = Num<Real>::make(c, gen_uniform(c, 0.3, 4));
    std::array<R, 7> std7; // second to eighth
    switch (c.range(0, 2)) {
    case 0: {
        // a distribution, possibly perturbed
        Discrete d = Discrete::random(c, 8);
        for (int k = 0; k < 7; ++k) std7[k] = d.moment(k + 2);
        std7[0] = 1;
        if (c.chance(1, 2)) {
            const int k = c.range(1, 6);
            std7[k] += gen_double(c, 2) * (c.chance(1, 2) ? std::fabs(std7[k]) * 0.1L : 1);
        }
        break;
    }
    case 1: {
        // mixture of gaussians
        R w = 0, m[9] {};
        const int nn = c.range(1, 3);
        for (int q = 0; q < nn; ++q) {
            const R p = 1 + c.range(0, 5), mu = q == 0 ? 0 : gen_uniform(c, -3, 3), sg = gen_uniform(c, 0.2, 2);
            w += p;
            R g[9];
            g[0] = 1; g[1] = mu;
            for (int k = 2; k <= 8; ++k) g[k] = mu * g[k - 1] + (k - 1) * sg * sg * g[k - 2];
            for (int k = 0; k <= 8; ++k) m[k] += p * g[k];
        }
        for (int k = 0; k <= 8; ++k) m[k] /= w;
        // center
        R ce[9];
        for (int k = 0; k <= 8; ++k) {
            ce[k] = 0;
            R binom = 1, pw = 1;
            for (int j = 0; j <= k; ++j) { ce[k] += binom * pw * m[k - j]; pw *= -m[1]; binom = binom * (k - j) / (j + 1); }
        }
        const R sd = std::sqrt(ce[2]);
        R p = sd * sd;
        for (int k = 2; k <= 8; ++k) { std7[k - 2] = ce[k] / p; p *= sd; }
        std7[0] = 1;
        break;
    }
    default:
        std7[0] = 1;
        for (int k = 1; k < 7; ++k) {
            std7[k] = gen_double(c, 1);
            if (k % 2 == 0 && c.chance(2, 3)) std7[k] = std::fabs(std7[k]) * std::pow(3.0L, k);
        }
        break;
    }
    if (c.chance(1, 2)) {
        std::array<Real, 6> m;
        for (int k = 0; k < 6; ++k) m[k] = Real(std7[k + 1]);
        decide<U>(c, n, s, m);
    } else {
        std::array<Real, 7> m;
        R s = c.chance(2, 3) ? gen_uniform(c, 0.3, 4) : std::pow(10.0L, gen_uniform(c, -3.8, 3));
        if (sizeof(Real) > 4 && c.chance(1, 6)) s = std::pow(10.0L, gen_uniform(c, -30, 30));
        s = Real(s);
        R p = s * s;
        for (int k = 0; k < 7; ++k) { m[k] = Real(std7[k] * p); p *= s; }
        if (c.chance(1, 12)) m[0] = c.chance(1, 2) ? -m[0] : Real(0);
        decide<U>(c, n, Real(0), m);
    }
}

template<typename U>
static void negative(pbt::Case &c) {
    using Real = typename U::real_type;
    const Real s = c.chance(1, 6) ? -std::numeric_limits<Real>::denorm_min() : c.chance(1, 8) ? -std::numeric_limits<Real>::infinity() : -Num<Real>::make(c, gen_positive(c, 10));
    std::array<Real, 6> m {0, 3, 0, 15, 0, 105};
    if (c.chance(1, 2)) for (auto &x : m) x = Real(gen_double(c, 2));
    const Real t = c.pick({Real(0), Real(-1), Real(1), Real(1e-5), -std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::infinity()});
    U x;
    NOTE(c, "deviation " << s << ", moments " << show(m) << ", threshold " << t);
    c.nontrivial();
    CHECK_THAT(c, make(x, Real(gen_double(c)), s, m, c.chance(1, 3) ? nullptr : &t) == Outcome::rejected, "a deviation of " << s << " is accepted, with threshold " << t);
    // null deviation
    const std::array<Real, 6> g {0, 3, 0, 15, 0, 105};
    const Real zero = c.chance(1, 2) ? Real(0) : -Real(0);
    CHECK_THAT(c, make(x, Real(2), zero, g, static_cast<const Real *>(nullptr)) == Outcome::made, "a null deviation is rejected");
    CHECK_THAT(c, x.n() == 2 && x.s() == 0 && x.m(2) == 0 && x.m(3) == 0 && x.m(4) == 0, "moments of a variable with null deviation");
}

template<template<typename> class F>
static void dispatch(pbt::Case &c) {
    switch (c.range(0, 5)) {
    case 0: F<unc::UReal2E<double>>::run(c); break;
    case 1: F<unc::UReal2M<double>>::run(c); break;
    case 2: F<unc::UReal2E<float>>::run(c); break;
    case 3: F<unc::UReal2M<float>>::run(c); break;
    case 4: F<unc::UReal2E<long double>>::run(c); break;
    default: F<unc::UReal2M<long double>>::run(c); break;
    }
}
template<typename U> struct Mo { static void run(pbt::Case &c) { moments<U>(c); } };
template<typename U> struct Ne { static void run(pbt::Case &c) { negative<U>(c); } };

LAW(moments, 400000, 10000000, "moments of random distributions (discrete, mixtures of gaussians), perturbed ones, random numbers; accepted or rejected as the eigenvalues of the Hankel matrix say, and kept; non-trivial: clearly possible, or a threshold near the limit") { dispatch<Mo>(c); }
LAW(deviation, 100000, 2000000, "negative deviations are always rejected, null ones accepted") { dispatch<Ne>(c); }
