// C23: the library is generic in the numerical type. Compiled once per type;
// the reference is a binary floating point type of 100 decimal digits.
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_dec_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/mpfr.hpp>
#include "../lib/funcs.hpp"
#include "../lib/moments1.hpp"
#include "../lib/prog2.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <iomanip>

namespace mp = boost::multiprecision;

#if C23_TYPE == 5
#include "../lib/prog1.hpp"
#include "../lib/rational.hpp"

template<> struct Num<Q> {
    using Ref = Q;
    static constexpr bool exact = true;
    static constexpr bool functions = false;
    static const char *name() { return "exact rationals"; }
    static Ref eps() { return Q(0); }
    static Ref tiny() { return Q(0); }
    static Q make(pbt::Case &c, double d) { return Q(d) + Q(c.range(0, 6)) / Q(7); }
    static Ref ref(const Q &x) { return x; }
};

LAW(exact_rationals, 40000, 1000000, "random programs on UReal with exact rational numbers, in-place operators included: means, derivatives and covariances must be exactly right; non-trivial: two binary operations and a dependent variable") {
    Weights1 w;
    w.inplace = 8;
    w.inplace_scalar = 3;
    w.change_nom = 2;
    w.max_ops = 10;
    Machine1<Q> m(c, w);
    m.start();
    for (int i = 1 + static_cast<int>(c.below(w.max_ops)); i > 0; --i) {
        if (m.step() && m.touched >= 0) m.check_all(m.touched);
    }
    for (std::size_t i = 0; i < m.vars.size() && i < 6; ++i) {
        m.check_all(static_cast<int>(i));
        for (std::size_t j = 0; j <= i; ++j) m.check_pair(static_cast<int>(i), static_cast<int>(j));
    }
    if (m.binary_ops >= 2 && m.dependent_vars() >= 1) c.nontrivial();
}

LAW(exact_matrices, 20000, 400000, "cov_matrix, corr2cov and grad with exact rationals: exactly right; second order means and covariances of polynomials with rational moments: exactly right; non-trivial: always") {
    using U = unc::UReal<Q>;
    const int n = c.range(1, 4);
    std::vector<U> x;
    std::vector<Q> mu, s;
    for (int i = 0; i < n; ++i) {
        mu.push_back(Num<Q>::make(c, gen_double(c, 2)));
        s.push_back(Q(c.range(1, 20)) / Q(c.range(1, 9)));
        x.push_back(U(mu[i], s[i]));
    }
    std::vector<std::vector<Q>> a;
    std::vector<U> y;
    const int m = c.range(1, 4);
    for (int k = 0; k < m; ++k) {
        a.push_back({});
        U t = Q(0);
        for (int i = 0; i < n; ++i) {
            a[k].push_back(Q(c.range(-5, 5)) / Q(c.range(1, 9)));
            t += a[k][i] * x[i];
        }
        y.push_back(t);
    }
    const std::vector<Q> v = unc::cov_matrix<std::vector<Q>>(y);
    for (int k = 0; k < m; ++k) {
        for (int i = 0; i < n; ++i) CHECK_THAT(c, y[k].grad(x[i]) == a[k][i], "grad() is " << y[k].grad(x[i]) << " instead of " << a[k][i]);
        for (int l = 0; l < m; ++l) {
            Q want(0);
            for (int i = 0; i < n; ++i) want += a[k][i] * a[l][i] * s[i] * s[i];
            CHECK_THAT(c, v[k * m + l] == want, "an element of cov_matrix is " << v[k * m + l] << " instead of " << want);
        }
    }
    std::vector<Q> r(n * n, Q(1));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) r[i * n + j] = r[j * n + i] = Q(c.range(-7, 7)) / Q(9);
    const auto w = unc::corr2cov<std::vector<Q>>(s, r);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK_THAT(c, w[i * n + j] == r[i * n + j] * s[i] * s[j], "an element of corr2cov is " << w[i * n + j]);

    // second order: x -> c1 x + c2 x^2 / 2 of standardized variables
    using U2 = unc::UReal2<Q, unc::Prop::est>;
    const std::array<Q, 6> mom {{Q(c.range(-1, 1)), Q(3), Q(c.range(-2, 2)), Q(30), Q(0), Q(900)}};
    const U2 z(mu[0], s[0], mom, Q(-1)), z2(Q(1), Q(2), mom, Q(-1));
    const Q d1 = Q(c.range(-5, 5)) / Q(3), d2 = Q(c.range(-5, 5)) / Q(7), e1 = Q(c.range(-5, 5)), e12 = Q(c.range(-5, 5)) / Q(11), e2 = Q(c.range(-3, 3));
    const U2 f = binary(z, z2, Q(5), d1, e1, d2, e2, e12);
    CHECK_THAT(c, f.first_order_n() == Q(5), "first_order_n() is " << f.first_order_n());
    CHECK_THAT(c, f.grad(z) == d1 && f.grad(z2) == e1, "the derivatives are " << f.grad(z) << ", " << f.grad(z2) << " instead of " << d1 << ", " << e1);
    CHECK_THAT(c, f.hess(z, z) == d2 && f.hess(z2, z2) == e2 && f.hess(z, z2) == e12 && f.hess(z2, z) == e12, "the second derivatives are " << f.hess(z, z) << ", " << f.hess(z2, z2) << ", " << f.hess(z, z2));
    // f - 5 = A z + B w + (C z^2 + D w^2) / 2 + E z w, z and w standardized
    const Q A = d1 * s[0], BB = e1 * Q(2), C = d2 * s[0] * s[0], D = e2 * Q(4), F = e12 * s[0] * Q(2), m3 = mom[0], m4 = mom[1];
    const Q mean = (C + D) / Q(2);
    CHECK_THAT(c, f.m(1) == mean, "m(1) is " << f.m(1) << " instead of " << mean);
    CHECK_THAT(c, f.n() == Q(5) - mean, "n() is " << f.n());
    const Q var = A * A + BB * BB + F * F + (C * C + D * D) * (m4 - Q(1)) / Q(4) + (A * C + BB * D) * m3;
    CHECK_THAT(c, f.m(2) == var, "m(2) is " << f.m(2) << " instead of " << var);
    CHECK_THAT(c, cov(f, z) == s[0] * (A + C * m3 / Q(2)), "the covariance with an independent variable is " << cov(f, z));
    CHECK_THAT(c, cov(f, f) == var, "the covariance with itself is " << cov(f, f) << " instead of " << var);
    c.nontrivial();
}
#else

using B = mp::number<mp::cpp_bin_float<100>, mp::et_off>;
using E = Err<B>;
namespace rf { template<> struct Step<B> { static B frac() { return B(1e-8); } static B eps() { return B("1e-98"); } }; }

// C23_TYPE: 0 long double, 1 and 2 binary of 50 digits without and with
// expression templates, 3 MPFR of precision chosen at run time (50 digits, with
// expression templates), 4 decimal of 50 digits, 5 exact rationals (a class which
// has nothing but its operators)
#if C23_TYPE == 0
using T = long double;
#define NAMED(law) law##_long_double
#define TYPE_NAME "long double"
#elif C23_TYPE == 1
using T = mp::number<mp::cpp_bin_float<50>, mp::et_off>;
#define NAMED(law) law##_bin50
#define TYPE_NAME "cpp_bin_float<50>, et_off"
#elif C23_TYPE == 2
using T = mp::number<mp::cpp_bin_float<50>, mp::et_on>;
#define NAMED(law) law##_bin50_et
#define TYPE_NAME "cpp_bin_float<50>, et_on"
#elif C23_TYPE == 3
using T = mp::mpfr_float;
#define NAMED(law) law##_mpfr
#define TYPE_NAME "mpfr_float"
#elif C23_TYPE == 4
using T = mp::number<mp::cpp_dec_float<50>, mp::et_off>;
#define NAMED(law) law##_dec50
#define TYPE_NAME "cpp_dec_float<50>"
#endif
#define LAW2(name, quick, thorough, about) LAW(name, quick, thorough, about)
#define TYPED_LAW(name, quick, thorough, about) LAW2(NAMED(name), quick, thorough, TYPE_NAME ": " about)

static const B EPS = C23_TYPE == 0 ? B(std::numeric_limits<long double>::epsilon()) : B("1e-47");
static const B SLACK = EPS * 256;

static void start() {
    mp::mpfr_float::default_precision(50);
    ErrEnv<B>::eps = EPS;
    ErrEnv<B>::tiny = B("1e-4000");
}
static B big(const T &x) {
#if C23_TYPE == 0
    return B(x);
#else
    return static_cast<B>(x);
#endif
}
static T from(const B &x) { return static_cast<T>(x); }
// a number near d that needs all the digits of the type
static T full(pbt::Case &c, double d) {
    const T u = T(1 + c.range(0, 1000000)) / T(3486784401.0) / T(7);
    return T(T(d) * T(T(1) + u));
}

static void expect(pbt::Case &c, const T &lib, const B &ref, const B &tol, const std::string &what) {
    const B d = rabs<B>(big(lib) - ref);
    if (!(d <= tol)) {
        std::ostringstream s;
        s << std::setprecision(60) << what << " is " << big(lib) << ", expected " << ref << std::setprecision(5) << ", difference " << d << ", tolerance " << tol << " (" TYPE_NAME ")";
        c.fail(s.str());
    }
}
static void expect(pbt::Case &c, const T &lib, const E &ref, const std::string &what) { expect(c, lib, ref.v, B(2 * ref.e), what); }

static B cov_tol(const Dual<B> &x, const Dual<B> &y, const std::vector<Ind> &ind, B &cov) {
    B tol = 0;
    cov = 0;
    for (int i = 0; i < x.n; ++i) {
        const B s2 = B(ind[i].s) * B(ind[i].s), ax = rabs<B>(x.g[i].v), ay = rabs<B>(y.g[i].v);
        cov += x.g[i].v * y.g[i].v * s2;
        tol += s2 * (ax * y.g[i].e + ay * x.g[i].e + x.g[i].e * y.g[i].e + SLACK * ax * ay);
    }
    return 2 * tol;
}

// ------------------------------------------------------------ first order

TYPED_LAW(first, 1500, 60000, "random programs on UReal, in-place operators, nary, matrices of covariances; non-trivial: a result that depends on two or more variables") {
    start();
    using U = unc::UReal<T>;
    Weights2 w;
    w.max_ops = 8;
    w.max_ind = 4;
    Program<B> p;
    p.generate(c, w);
    auto v = exec<U>(p, MakeU<U>());
    auto m = p.model;
    const std::size_t n0 = p.ind.size();
    // in-place
    for (int q = c.range(0, 3); q > 0; --q) {
        const std::size_t i = c.below(v.size()), j = c.below(v.size());
        Op o {};
        o.kind = c.pick({Kind::add, Kind::sub, Kind::mul, Kind::div});
        o.i = static_cast<int>(i);
        o.j = static_cast<int>(j);
        Dual<B> d;
        if (!Program<B>::model_of(o, m, d) || !Program<B>::acceptable(d, p.ind, 1e5)) continue;
        if (i < n0) continue; // the derivatives are with respect to it
        NOTE(c, "in place: " << Program<B>::show(o, o.i));
        switch (o.kind) {
        case Kind::add: v[i] += v[j]; break;
        case Kind::sub: v[i] -= v[j]; break;
        case Kind::mul: v[i] *= v[j]; break;
        default: v[i] /= v[j];
        }
        m[i] = d;
    }
    // nary
    if (c.chance(1, 2)) {
        std::vector<U> x;
        std::vector<T> d;
        Dual<B> r(static_cast<int>(n0));
        const double f = gen_double(c, 1);
        r.v = E(B(f));
        for (int k = c.range(1, 4); k > 0; --k) {
            const std::size_t i = c.below(v.size());
            const T g = full(c, gen_double(c, 1));
            x.push_back(v[i]);
            d.push_back(g);
            for (std::size_t a = 0; a < n0; ++a) { r.g[a] = r.g[a] + E(big(g)) * m[i].g[a]; if (m[i].in[a]) r.in[a] = true; }
        }
        v.push_back(nary(x.begin(), x.end(), T(f), d.begin()));
        m.push_back(r);
    }
    const std::size_t from = v.size() > 4 ? v.size() - 4 : 0;
    for (std::size_t k = from; k < v.size(); ++k) {
        const std::string who = "v" + std::to_string(k);
        expect(c, v[k].n(), m[k].v, "the mean of " + who);
        for (std::size_t i = 0; i < n0; ++i) expect(c, v[k].grad(v[i]), m[k].g[i], "the derivative of " + who + " with respect to v" + std::to_string(i));
        E var2(0);
        for (std::size_t i = 0; i < n0; ++i) { const E t = m[k].g[i] * E(B(p.ind[i].s)); var2 = var2 + t * t; }
        if (var2.e < var2.v * B(1e-3)) expect(c, v[k].s(), sqrt(var2), "the deviation of " + who);
        const U &x = v[k];
        expect(c, var(x), var2, "the variance of " + who);
        for (std::size_t l = from; l < v.size(); ++l) {
            B want;
            const B tol = cov_tol(m[k], m[l], p.ind, want);
            expect(c, cov(v[k], v[l]), want, tol, "the covariance of " + who + " and v" + std::to_string(l));
        }
        if (m[k].nonzero() >= 2) c.nontrivial();
    }
    const std::vector<U> xs(v.begin() + from, v.end());
    const std::size_t n = xs.size();
    const auto cm = unc::cov_matrix<std::vector<T>>(xs), rm = unc::corr_matrix<std::vector<T>>(xs), nv = unc::nom_vector<std::vector<T>>(xs);
    std::vector<T> sd;
    for (auto &x : xs) sd.push_back(x.s());
    bool all = true;
    for (auto &x : sd) if (!(big(x) > B(1e-6))) all = false;
    if (!all) return;
    const auto back = unc::corr2cov<std::vector<T>>(sd, rm);
    for (std::size_t i = 0; i < n; ++i) {
        expect(c, nv[i], m[from + i].v, "nom_vector");
        for (std::size_t j = 0; j < n; ++j) {
            B want;
            const B tol = cov_tol(m[from + i], m[from + j], p.ind, want), s = big(sd[i]) * big(sd[j]);
            expect(c, cm[n * i + j], want, tol, "cov_matrix");
            expect(c, rm[n * i + j], B(want / s), B(4 * tol / s + SLACK * 1000 * rabs<B>(want / s) + B("1e-40") * (C23_TYPE != 0) + B("1e-12") * (C23_TYPE == 0)), "corr_matrix");
            expect(c, back[n * i + j], B(big(rm[n * i + j]) * s), B(SLACK * s), "corr2cov");
        }
    }
}

// ------------------------------------------------------------ second order

// a distribution with a few values, variance not standardized
struct Atoms {
    std::vector<B> x, p;  // centered
    B moment(int n) const { B m = 0; for (std::size_t k = 0; k < x.size(); ++k) { B t = p[k]; for (int q = 0; q < n; ++q) t *= x[k]; m += t; } return m; }
    static Atoms random(pbt::Case &c, int min, int max) {
        Atoms a;
        const int n = min + static_cast<int>(c.below(max - min + 1));
        B x = 0, tot = 0, mu = 0;
        for (int k = 0; k < n; ++k) {
            a.x.push_back(x);
            a.p.push_back(B(1 + c.range(0, 9)));
            tot += a.p[k];
            x += B(1 + c.range(0, 5)) / 3;
        }
        for (int k = 0; k < n; ++k) { a.p[k] /= tot; mu += a.p[k] * a.x[k]; }
        for (auto &y : a.x) y -= mu;
        return a;
    }
};

TYPED_LAW(second, 800, 30000, "random programs on UReal2 of both modes with random discrete distributions; derivatives, all the moments and covariances against enumeration; non-trivial: a hessian that is not null") {
    start();
    Weights2 w;
    w.max_ops = 6;
    w.max_ind = 3;
    w.bound = 1e3;
    Program<B> p;
    p.generate(c, w);
    const int n0 = static_cast<int>(p.ind.size());
    std::vector<Atoms> dist;
    for (int i = 0; i < n0; ++i) dist.push_back(Atoms::random(c, 2, 4));
    std::vector<int> how;
    for (int i = 0; i < n0; ++i) how.push_back(c.range(0, 1));
    auto check = [&](auto tag) {
        using U = decltype(tag);
        const auto v = exec<U>(p, [&](int i, const Ind &x) {
            if (how[i]) {
                std::array<T, 7> m;
                for (int k = 0; k < 7; ++k) m[k] = from(dist[i].moment(k + 2));
                return U(T(x.n), m, T(-1));
            }
            const B s = sqrt(dist[i].moment(2));
            B sn = s * s;
            std::array<T, 6> m;
            for (int k = 0; k < 6; ++k) { sn *= s; m[k] = from(B(dist[i].moment(k + 3) / sn)); }
            return U(T(x.n), from(s), m, T(-1));
        });
        const std::size_t start = v.size() > 2 ? v.size() - 2 : 0;
        // outcomes of every variable
        std::vector<std::vector<B>> val(v.size()), size(v.size()), err(v.size());
        std::vector<B> prob;
        std::vector<std::size_t> k(n0, 0);
        for (;;) {
            std::vector<B> z;
            B pr = 1;
            for (int i = 0; i < n0; ++i) { z.push_back(dist[i].x[k[i]]); pr *= dist[i].p[k[i]]; }
            prob.push_back(pr);
            for (std::size_t q = start; q < v.size(); ++q) {
                B y = 0, a = 0, e = 0;
                const auto &d = p.model[q];
                for (int i = 0; i < n0; ++i) {
                    y += d.g[i].v * z[i];
                    a += rabs<B>(d.g[i].v * z[i]);
                    e += d.g[i].e * rabs<B>(z[i]);
                    for (int j = 0; j < n0; ++j) {
                        const B zz = z[i] * z[j] / 2;
                        y += d.hess(i, j).v * zz;
                        a += rabs<B>(d.hess(i, j).v * zz);
                        e += d.hess(i, j).e * rabs<B>(zz);
                    }
                }
                val[q].push_back(y);
                size[q].push_back(a);
                err[q].push_back(e);
            }
            int i = 0;
            for (; i < n0; ++i) { if (++k[i] < dist[i].x.size()) break; k[i] = 0; }
            if (i == n0) break;
        }
        auto mean = [&](auto f) { B s = 0; for (std::size_t o = 0; o < prob.size(); ++o) s += prob[o] * f(o); return s; };
        for (std::size_t q = start; q < v.size(); ++q) {
            const std::string who = "v" + std::to_string(q);
            const auto &d = p.model[q];
            const U &x = v[q];
            expect(c, x.first_order_n(), d.v, "first_order_n() of " + who);
            for (int i = 0; i < n0; ++i) {
                expect(c, x.grad(v[i]), d.g[i], "the derivative of " + who + " with respect to v" + std::to_string(i));
                for (int j = 0; j < n0; ++j) expect(c, x.hess(v[i], v[j]), d.hess(i, j), "the second derivative of " + who + " with respect to v" + std::to_string(i) + ", v" + std::to_string(j));
            }
            B m[5], e[5];
            m[1] = mean([&](std::size_t o) { return val[q][o]; });
            for (int n = 1; n <= 4; ++n) {
                auto pw = [&](B t) { B r = 1; for (int a = 0; a < n; ++a) r *= t; return r; };
                if (n > 1) m[n] = mean([&](std::size_t o) { return pw(B(val[q][o] - m[1])); });
                const B A = mean([&](std::size_t o) { return pw(size[q][o]); }), D = mean([&](std::size_t o) { return pw(B(size[q][o] + err[q][o])); });
                e[n] = (1 << n) * (D - A + 400 * SLACK * A);
                expect(c, x.m(n), m[n], e[n], "m(" + std::to_string(n) + ") of " + who);
            }
            expect(c, x.n(), B(d.v.v + (U::prop_mode == unc::Prop::est ? B(-m[1]) : m[1])), B(e[1] + 2 * d.v.e + 4 * SLACK * (abs(d.v.v) + abs(m[1]))), "n() of " + who);
            if (m[2] > 0 && e[2] < B(1e-6) * m[2]) {
                const B sd = sqrt(m[2]), rel = e[2] / m[2] + 8 * SLACK;
                expect(c, x.s(), sd, B(rel * sd), "s() of " + who);
                expect(c, x.skew(), B(m[3] / (m[2] * sd)), B(e[3] / (m[2] * sd) * B(1.1) + 4 * rel * rabs<B>(m[3] / (m[2] * sd))), "skew() of " + who);
                expect(c, x.kurt(), B(m[4] / (m[2] * m[2])), B(e[4] / (m[2] * m[2]) * B(1.1) + 4 * rel * m[4] / (m[2] * m[2])), "kurt() of " + who);
            }
            for (std::size_t r = start; r < v.size(); ++r) {
                const B mr = mean([&](std::size_t o) { return val[r][o]; });
                const B want = mean([&](std::size_t o) { return B((val[q][o] - m[1]) * (val[r][o] - mr)); });
                const B A = mean([&](std::size_t o) { return B(size[q][o] * size[r][o]); }), D = mean([&](std::size_t o) { return B((size[q][o] + err[q][o]) * (size[r][o] + err[r][o])); });
                expect(c, cov(v[q], v[r]), want, B(4 * (D - A + 400 * SLACK * A)), "the covariance of " + who + " and v" + std::to_string(r));
            }
            if (d.has_hess()) c.nontrivial();
        }
    };
    if (c.chance(1, 2)) check(unc::UReal2<T, unc::Prop::est>());
    else check(unc::UReal2<T, unc::Prop::mean>());
}

// ------------------------------------------------------------ functions

TYPED_LAW(function1, 2500, 60000, "functions of one argument on UReal and UReal2, derivatives by differences of eighth order; non-trivial: a derivative that is not null") {
    start();
    const int k = static_cast<int>(c.below(n_f1));
    const T x = full(c, f1_arg(c, k, false));
    D1<B> r;
    if (!f1_derivs<B>(k, big(x), r)) throw pbt::Discard{};
    B e1, e2;
    f1_extra<B>(k, r, e1, e2);
    const std::string name = f1_name(k);
    c.label(name);
    NOTE(c, name << "(" << std::setprecision(50) << x << ")");
    const B ax = rabs<B>(big(x));
    const B tf = 64 * EPS * (rabs<B>(r.f) + rabs<B>(ax * r.d[1])) + r.e[0];
    const B t1 = 64 * EPS * (rabs<B>(r.d[1]) + ax * rabs<B>(r.d[2]) + e1) + 2 * r.e[1];
    const B t2 = 64 * EPS * (rabs<B>(r.d[2]) + ax * rabs<B>(r.d[3]) + e2) + 2 * r.e[2] + 64 * EPS * ax * r.e[3];
    const unc::UReal<T> u(x, T(1));
    const unc::UReal<T> f = f1_lib(k, u);
    expect(c, f.n(), r.f, tf, name);
    expect(c, f.grad(u), r.d[1], t1, "the derivative of " + name);
    using U2 = unc::UReal2<T, unc::Prop::est>;
    const U2 u2(x, T(1), std::array<T, 6>{{T(0), T(3), T(0), T(15), T(0), T(105)}}, T(-1));
    const U2 f2 = f1_lib(k, u2);
    expect(c, f2.first_order_n(), r.f, tf, name);
    expect(c, f2.grad(u2), r.d[1], t1, "the derivative of " + name + " (second order)");
    expect(c, f2.hess(u2, u2), r.d[2], t2, "the second derivative of " + name);
    if (rabs<B>(r.d[1]) > B(1e-6)) c.nontrivial();
}

TYPED_LAW(function2, 800, 20000, "functions of two arguments on UReal and UReal2; non-trivial: a derivative with respect to the second argument that is not null") {
    start();
    const int k = c.chance(1, 3) ? static_cast<int>(c.below(n_f2)) : f_pow + static_cast<int>(c.below(3));
    double dx = 0, dy = 0;
    f2_args(c, k, false, false, dx, dy);
    const T x = full(c, dx), y = full(c, dy);
    D2<B> r;
    if (!f2_derivs<B>(k, big(x), big(y), r, false, 1e-7)) throw pbt::Discard{};
    const std::string name = f2_name(k);
    c.label(name);
    NOTE(c, name << "(" << std::setprecision(50) << x << ", " << y << ")");
    B tol[5];
    for (int i = 0; i < 5; ++i) tol[i] = 64 * EPS * (rabs<B>(r.d[i]) + r.s[i]) + 2 * r.e[i] + B("1e-4000");
    B tf = 64 * EPS * (r.fs + rabs<B>(big(x) * r.d[0]) + rabs<B>(big(y) * r.d[1])) + B("1e-4000");
    if (k == f_fmod || k == f_remainder) tf += 16 * EPS * (rabs<B>(big(x)) + rabs<B>(big(y))); // not exact for every type
    const unc::UReal<T> u(x, T(1)), v(y, T(2));
    const unc::UReal<T> f = f2_lib(k, u, v);
    expect(c, f.n(), r.f, tf, name);
    expect(c, f.grad(u), r.d[0], tol[0], "the first derivative of " + name);
    expect(c, f.grad(v), r.d[1], tol[1], "the second derivative of " + name);
    using U2 = unc::UReal2<T, unc::Prop::mean>;
    const std::array<T, 6> m {{T(0), T(3), T(0), T(15), T(0), T(105)}};
    const U2 u2(x, T(1), m, T(-1)), v2(y, T(2), m, T(-1));
    const U2 f2 = f2_lib(k, u2, v2);
    expect(c, f2.first_order_n(), r.f, tf, name);
    expect(c, f2.grad(u2), r.d[0], tol[0], "the derivative of " + name + " with respect to the first argument (second order)");
    expect(c, f2.grad(v2), r.d[1], tol[1], "the derivative of " + name + " with respect to the second argument (second order)");
    expect(c, f2.hess(u2, u2), r.d[2], tol[2], "the second derivative (x, x) of " + name);
    expect(c, f2.hess(v2, v2), r.d[3], tol[3], "the second derivative (y, y) of " + name);
    expect(c, f2.hess(u2, v2), r.d[4], tol[4], "the second derivative (x, y) of " + name);
    if (rabs<B>(r.d[1]) > B(1e-6)) c.nontrivial();
}

// ------------------------------------------------------------ the rest

#if C23_TYPE != 0
// reads "a SEP b" or "(a SEP b)e+k": the numbers, and the unit of the last digit
struct Pair { B a, b, ua, ub; bool ok; };
static bool number(std::string s, int e, B &x, B &unit) {
    if (s.empty() || s.find_first_not_of("-0123456789.") != std::string::npos) return false;
    const auto dot = s.find('.');
    const int frac = dot == std::string::npos ? 0 : static_cast<int>(s.size() - dot) - 1;
    x = B(s + "e" + std::to_string(e));
    unit = B("1e" + std::to_string(e - frac));
    return true;
}
static Pair parse(const std::string &t, const std::string &sep) {
    Pair p {0, 0, 0, 0, false};
    std::string s = t;
    int e = 0;
    if (!s.empty() && s[0] == '(') {
        const auto q = s.find(")e");
        if (q == std::string::npos) return p;
        e = std::atoi(s.c_str() + q + 2);
        s = s.substr(1, q - 1);
    }
    const auto q = s.find(sep);
    if (q == std::string::npos) return p;
    p.ok = number(s.substr(0, q), e, p.a, p.ua) && number(s.substr(q + sep.size()), e, p.b, p.ub);
    return p;
}

TYPED_LAW(format, 6000, 200000, "many digits, read back from the text; non-trivial: more than 17 digits shown") {
    start();
    const int es = c.range(-40, 40), d = c.range(-3, 40);
    const T s = full(c, 1 + c.range(0, 8999) / 1000.0) * T(mp::pow(B(10), es).convert_to<T>());
    T mu = full(c, 1 + c.range(0, 8999) / 1000.0) * T(mp::pow(B(10), es + d).convert_to<T>());
    if (c.chance(1, 3)) mu = -mu;
    const int errdig = c.range(2, std::max(2, 42 - std::max(d, 0)));
    const std::string t = unc::format(unc::UReal<T>(mu, s), static_cast<float>(errdig), " ; ");
    NOTE(c, std::setprecision(50) << mu << " +- " << s << " with " << errdig << " digits: " << t);
    const Pair p = parse(t, " ; ");
    CHECK_THAT(c, p.ok, "can not read '" << t << "'");
    const B slack = B("1e-44");
    expect(c, mu, p.a, B(p.ua / 2 + slack * rabs<B>(big(mu))), "the mean shown as '" + t + "'");
    expect(c, s, p.b, B(p.ub / 2 + slack * big(s)), "the deviation shown as '" + t + "'");
    CHECK_THAT(c, p.ua == p.ub, "mean and deviation are not aligned in '" << t << "'");
    if (errdig + std::max(d, 0) > 17) c.nontrivial();
}
#endif

TYPED_LAW(ureals, 1500, 40000, "variables with a covariance matrix asked for, numbers with all the digits of the type; non-trivial: two or more variables") {
    start();
    const int n = c.range(1, 5);
    std::vector<T> mu, a(n * n), v(n * n);
    for (int i = 0; i < n; ++i) mu.push_back(full(c, gen_double(c, 3)));
    for (auto &x : a) x = full(c, gen_uniform(c, -1, 1));
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) {
        T t = i == j ? full(c, 0.05) : T(0);
        for (int k = 0; k < n; ++k) t += T(a[i * n + k] * a[j * n + k]);
        v[i * n + j] = v[j * n + i] = t;
    }
    const auto x = unc::ureals<std::vector<unc::UReal<T>>>(mu, v);
    CHECK_THAT(c, static_cast<int>(x.size()) == n, x.size() << " variables instead of " << n);
    for (int i = 0; i < n; ++i) {
        expect(c, x[i].n(), big(mu[i]), B(SLACK * rabs<B>(big(mu[i]))), "the mean of a variable made by ureals");
        for (int j = 0; j < n; ++j) expect(c, cov(x[i], x[j]), big(v[i * n + j]), B(100 * n * SLACK * sqrt(B(big(v[i * n + i]) * big(v[j * n + j])))), "the covariance of variables made by ureals");
    }
    if (n >= 2) c.nontrivial();
}

TYPED_LAW(distributions, 2500, 60000, "moments of quadratic functions of the predefined distributions; non-trivial: linear and quadratic term") {
    start();
    using U = unc::UReal2<T, unc::Prop::est>;
    using M = BasicMom9<B>;
    U x;
    M z;
    B mean, sd;
    std::string what;
    switch (c.range(0, 2)) {
    case 0: {
        const T mu = full(c, gen_double(c, 3)), s = full(c, gen_positive(c, 3));
        x = unc::distr::normal<U>(mu, s);
        z = M::normal();
        mean = big(mu);
        sd = big(s);
        what = "normal";
        break;
    }
    case 1: {
        const T l = full(c, gen_double(c, 1)), r = l + full(c, gen_positive(c, 1));
        x = unc::distr::uniform<U>(l, r);
        z = M::uniform();
        mean = (big(l) + big(r)) / 2;
        sd = (big(r) - big(l)) / sqrt(B(12));
        what = "uniform";
        break;
    }
    default: {
        const int k = c.range(1, 30);
        x = unc::distr::chisquare<U>(k);
        z = M::chisquare(B(k));
        mean = k;
        sd = sqrt(B(2 * k));
        what = "chisquare";
    }
    }
    c.label(what);
    const B size = rabs<B>(mean) + 30 * sd;
    expect(c, x.n(), mean, B(SLACK * size), "the mean of " + what);
    expect(c, x.s(), sd, B(SLACK * size), "the deviation of " + what);
    expect(c, x.skew(), z.m[3], B(SLACK * (1 + z.a[3])), "the skewness of " + what);
    expect(c, x.kurt(), z.m[4], B(SLACK * z.a[4]), "the kurtosis of " + what);
    const B s0 = big(x.s());
    const T g = from(B(gen_double(c, 1) / s0)), h = from(B(gen_double(c, 1) / s0 / s0));
    const U y = unary(x, T(1), g, T(2 * h));
    const auto q = BasicQuadMoments<B>::of(z, B(big(g) * s0), B(big(h) * s0 * s0));
    for (int n = 1; n <= 4; ++n) expect(c, y.m(n), q.m[n], B(SLACK * 1000 * q.size[n]), "m(" + std::to_string(n) + ") of a function of " + what);
    if (g != 0 && h != 0) c.nontrivial();
}

TYPED_LAW(factories, 2500, 60000, "functions with derivatives given or numerical with the default step of the type; non-trivial: always") {
    start();
    const T x = full(c, gen_uniform(c, -2, 2)), y = full(c, gen_uniform(c, -2, 2));
    const B bx = big(x), by = big(y);
    auto f = [](const T &t) { return T(t * t * t - t / 3); };
    auto df = [](const T &t) { return T(3 * t * t - T(1) / 3); };
    auto g = [](const T &t, const T &u) { return T(t * t * u - u * u / 7); };
    const unc::UReal<T> u(x, T(1)), v(y, T(1));
    const B f0 = bx * bx * bx - bx / 3, f1 = 3 * bx * bx - B(1) / 3, f2 = 6 * bx;
    const B g0 = bx * bx * by - by * by / 7, gx = 2 * bx * by, gy = bx * bx - 2 * by / 7;
    const B h1 = sqrt(EPS) * (C23_TYPE == 0 ? 10 : 10000), h2 = sqrt(h1) * 1000; // steps, generously
    const auto exact = unc::uunary<T>(f, df);
    expect(c, exact(u).n(), f0, B(SLACK * 100), "the value of a function");
    expect(c, exact(u).grad(u), f1, B(SLACK * 100), "the derivative given");
    const auto num = unc::uunary<T>(f);
    expect(c, num(u).n(), f0, B(SLACK * 100), "the value of a function with numerical derivative");
    expect(c, num(u).grad(u), f1, B(h1 * 100), "the numerical derivative");
    const auto num2 = unc::ubinary<T>(g);
    expect(c, num2(u, v).n(), g0, B(SLACK * 100), "the value of a function of two arguments");
    expect(c, num2(u, v).grad(u), gx, B(h1 * 100), "the numerical derivative with respect to x");
    expect(c, num2(u, v).grad(v), gy, B(h1 * 100), "the numerical derivative with respect to y");
    using U2 = unc::UReal2<T, unc::Prop::est>;
    const std::array<T, 6> m {{T(0), T(3), T(0), T(15), T(0), T(105)}};
    const U2 a(x, T(1), m, T(-1)), b(y, T(1), m, T(-1));
    const U2 p = unc::uunary2<T, unc::Prop::est>(f, df)(a);
    expect(c, p.grad(a), f1, B(SLACK * 100), "the derivative given (second order)");
    expect(c, p.hess(a, a), f2, B(h1 * 100), "the numerical second derivative from the first");
    const U2 q = unc::uunary2<T, unc::Prop::est>(f)(a);
    expect(c, q.first_order_n(), f0, B(SLACK * 100), "the value of a function with all the derivatives numerical");
    expect(c, q.grad(a), f1, B(h2 * 100), "the numerical derivative (second order)");
    expect(c, q.hess(a, a), f2, B(h2 * 1000), "the numerical second derivative");
    const U2 r = unc::ubinary2<T, unc::Prop::est>(g)(a, b);
    expect(c, r.grad(a), gx, B(h2 * 100), "the numerical derivative with respect to x (second order)");
    expect(c, r.hess(a, b), B(2 * bx), B(h2 * 1000), "the numerical mixed derivative");
    c.nontrivial();
}

TYPED_LAW(moments, 1500, 40000, "moments at the border of what is possible (2 to 4 values) accepted with a threshold near the precision of the type, and impossible ones rejected; non-trivial: at the border") {
    start();
    using U = unc::UReal2<T, unc::Prop::est>;
    const Atoms d = Atoms::random(c, 2, 5);
    const B s = sqrt(d.moment(2));
    std::array<T, 6> m;
    B sn = s * s;
    for (int k = 0; k < 6; ++k) { sn *= s; m[k] = from(B(d.moment(k + 3) / sn)); }
    const T thr = C23_TYPE == 0 ? T(1e-15) : T(T(1) / mp::pow(B(10), 38).convert_to<T>());
    try {
        const U x(T(1), from(s), m, thr);
        expect(c, x.kurt(), big(m[1]), B(SLACK * big(m[1])), "the kurtosis given");
    } catch (const std::invalid_argument &e) {
        FAIL(c, "the moments of a distribution with " << d.x.size() << " values are rejected with threshold " << thr << ": " << e.what());
    }
    m[1] = T(m[1] - T(m[1] - T(m[0] * m[0]) + T(0.25)));  // kurtosis < skewness^2 + 1
    bool thrown = false;
    try { const U x(T(1), from(s), m, thr); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK_THAT(c, thrown, "impossible moments are accepted");
    if (d.x.size() < 5) c.nontrivial();
}
#endif
