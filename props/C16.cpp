// C16: ureals() reproduces the means and the covariance matrix asked for.
#include "../lib/gen.hpp"
#include "../lib/eigen.hpp"
#include <algorithm>
#include <deque>
#include <stdexcept>
#include <valarray>
#include <vector>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureals.hpp>

namespace unc = uncertainties;
using L = long double;

// Fills the column-major buffer from the symmetric matrix v, with something
// else in the triangle that is documented not to be read.
template<typename Real, typename Buf>
static Buf buffer(pbt::Case &c, const std::vector<L> &v, int n, std::string &how) {
    Buf b(n * n);
    const int kind = c.range(0, 3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        Real x = static_cast<Real>(v[i * n + j]);
        if (i < j) switch (kind) {
        case 1: x = std::numeric_limits<Real>::quiet_NaN(); break;
        case 2: x = 0; break;
        case 3: x = -1000 - 3 * x; break;
        }
        b[i + n * j] = x; // row i, column j
    }
    if (kind) how = "garbage in the upper triangle";
    return b;
}

template<typename Real>
static std::vector<Real> means(pbt::Case &c, int n) {
    std::vector<Real> mu;
    for (int i = 0; i < n; ++i) mu.push_back(static_cast<Real>(gen_double(c, 6)));
    return mu;
}

static std::string show(const std::vector<L> &v, int n) {
    std::ostringstream s;
    s.precision(17);
    for (int i = 0; i < n; ++i) { s << "["; for (int j = 0; j < n; ++j) s << (j ? ", " : "") << v[i * n + j]; s << "]"; }
    return s.str();
}

// a permutation of the variables
static std::vector<L> permute(pbt::Case &c, const std::vector<L> &v, int n) {
    std::vector<int> p;
    for (int i = 0; i < n; ++i) p.push_back(i);
    for (int i = n; i > 1; --i) std::swap(p[i - 1], p[c.range(0, i - 1)]);
    std::vector<L> w(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[i * n + j] = v[p[i] * n + p[j]];
    return w;
}

// positive definite, well conditioned after scaling to unit diagonal
static std::vector<L> positive_definite(pbt::Case &c, int n, int e10) {
    std::vector<L> m(n * n), v(n * n);
    for (auto &x : m) x = gen_uniform(c, -1, 1);
    for (int i = 0; i < n; ++i) m[i * n + i] += m[i * n + i] < 0 ? -0.25L : 0.25L;
    std::vector<L> s(n);
    for (auto &x : s) x = std::pow(10.0L, e10 ? (c.range(0, 2 * e10) - e10) : 0) * gen_uniform(c, 0.5, 2);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) {
        L t = i == j ? 1e-2L : 0;
        for (int k = 0; k < n; ++k) t += m[i * n + k] * m[j * n + k];
        v[i * n + j] = v[j * n + i] = t;
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) v[i * n + j] *= s[i] * s[j];
    return v;
}

// different units
static void rescale(pbt::Case &c, std::vector<L> &v) {
    if (!c.chance(1, 4)) return;
    const L f = std::ldexp(1.0L, 2 * (c.range(0, 40) - 20));
    for (auto &x : v) x *= f;
}

// M M^T with M n x k, k < n
static std::vector<L> low_rank(pbt::Case &c, int n, int e10, bool integers) {
    const int k = c.range(0, n - 1);
    std::vector<L> m(n * k), v(n * n), s(n, 1);
    for (auto &x : m) x = integers ? c.range(0, 6) - 3 : gen_uniform(c, -1, 1);
    if (!integers) for (auto &x : s) x = std::pow(10.0L, e10 ? (c.range(0, 2 * e10) - e10) : 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        L t = 0;
        for (int l = 0; l < k; ++l) t += m[i * k + l] * m[j * k + l];
        v[i * n + j] = t * s[i] * s[j];
    }
    return v;
}

template<typename Real, typename OutVector, typename MuVector, typename CovVector>
static void accepted(pbt::Case &c, std::vector<L> v, int n) {
    // the matrix as the type can represent it
    for (auto &x : v) x = static_cast<Real>(x);
    const std::vector<Real> m = means<Real>(c, n);
    MuVector mu(n);
    for (int i = 0; i < n; ++i) mu[i] = m[i];
    std::string how;
    const CovVector b = buffer<Real, CovVector>(c, v, n, how);
    NOTE(c, Num<Real>::name() << " " << n << " variables, covariance " << show(v, n) << " " << how);
    OutVector x;
    try {
        x = unc::ureals<OutVector>(mu, b);
    } catch (const std::exception &e) {
        FAIL(c, "the positive semidefinite matrix " << show(v, n) << " is rejected: " << e.what());
    }
    CHECK_THAT(c, static_cast<int>(x.size()) == n, x.size() << " variables instead of " << n);
    const L eps = std::numeric_limits<Real>::epsilon();
    for (int i = 0; i < n; ++i) {
        CHECK_THAT(c, std::fabs(L(x[i].n()) - m[i]) <= 4 * eps * std::fabs(L(m[i])), "variable " << i << " has mean " << x[i].n() << " instead of " << m[i]);
        const L s = std::sqrt(v[i * n + i]);
        CHECK_THAT(c, std::fabs(L(x[i].s()) - s) <= 24 * n * eps * s, "variable " << i << " of " << show(v, n) << " has deviation " << x[i].s() << " instead of " << s);
        for (int j = 0; j < n; ++j) {
            const L cv = cov(x[i], x[j]);
            const L tol = 24 * n * eps * std::sqrt(v[i * n + i] * v[j * n + j]);
            CHECK_THAT(c, std::fabs(cv - v[i * n + j]) <= tol, "the covariance of variables " << i << ", " << j << " of " << show(v, n) << " is " << cv << " instead of " << v[i * n + j] << " (" << how << ")");
            if (i < j && v[i * n + j] != 0) c.nontrivial();
        }
    }
    if (!how.empty()) c.label(how);
    c.label(std::to_string(n) + " variables");
    if (n && c.chance(1, 4)) {
        // unrelated to another call
        const OutVector y = unc::ureals<OutVector>(mu, b);
        const int i = c.range(0, n - 1), j = c.range(0, n - 1);
        CHECK_THAT(c, cov(x[i], y[j]) == 0, "variables from two calls are correlated");
        CHECK_THAT(c, std::fabs(L(y[i].n()) - m[i]) <= 4 * eps * std::fabs(L(m[i])), "second call: variable " << i << " has mean " << y[i].n() << " instead of " << m[i]);
    }
}

template<typename Real>
static void accepted_in(pbt::Case &c, const std::vector<L> &v, int n) {
    using U = unc::UReal<Real>;
    switch (c.range(0, 3)) {
    case 0: accepted<Real, std::vector<U>, std::vector<Real>, std::vector<Real>>(c, v, n); break;
    case 1: accepted<Real, std::deque<U>, std::vector<Real>, std::deque<Real>>(c, v, n); break;
    case 2: accepted<Real, std::vector<U>, std::valarray<Real>, std::valarray<Real>>(c, v, n); break;
    case 3: accepted<Real, std::vector<U>, std::deque<Real>, std::vector<Real>>(c, v, n); break;
    }
}

static void by_type(pbt::Case &c, const std::vector<L> &v, int n) {
    switch (c.weighted({4, 1, 1})) {
    case 0: accepted_in<double>(c, v, n); break;
    case 1: accepted_in<float>(c, v, n); break;
    default: accepted_in<long double>(c, v, n); break;
    }
}

LAW(definite, 400000, 8000000, "positive definite matrices (scales from 1e-6 to 1e6 within a matrix), any order: means, deviations, all covariances; non-trivial: a non-null covariance") {
    const int n = c.chance(1, 25) ? c.range(9, 24) : c.range(1, 8);
    std::vector<L> v = positive_definite(c, n, c.chance(1, 2) ? 0 : 6);
    rescale(c, v);
    by_type(c, permute(c, v, n), n);
}

LAW(singular, 400000, 8000000, "low rank, duplicated, null and diagonal matrices: accepted and reproduced; non-trivial: a non-null covariance") {
    const int n = c.chance(1, 25) ? c.range(8, 20) : c.range(1, 7);
    std::vector<L> v(n * n);
    switch (c.range(0, 4)) {
    case 0: v = low_rank(c, n, 0, true); c.label("integers of low rank"); break;
    case 1: v = low_rank(c, n, c.chance(1, 2) ? 0 : 5, false); c.label("low rank"); break;
    case 2: { // diagonal, with zeros
        for (int i = 0; i < n; ++i) v[i * n + i] = c.chance(1, 3) ? 0 : std::fabs(gen_double(c, 4));
        c.label("diagonal");
        break;
    }
    case 3: { // repeated variables and null ones
        const int k = c.range(1, n);
        const std::vector<L> w = positive_definite(c, k, c.chance(1, 2) ? 0 : 3);
        std::vector<int> of(n);
        std::vector<L> f(n);
        for (int i = 0; i < n; ++i) { of[i] = c.range(0, k - 1); f[i] = c.pick<L>({1, 1, -1, 2, 0.5L, 0}); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) v[i * n + j] = w[of[i] * k + of[j]] * f[i] * f[j];
        c.label("repeated variables");
        break;
    }
    case 4: { // fully correlated
        for (int i = 0; i < n; ++i) v[i * n + i] = gen_double(c, 3);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) v[i * n + j] = v[i * n + i] * v[j * n + j];
        for (int i = 0; i < n; ++i) v[i * n + i] *= v[i * n + i];
        c.label("rank one");
        break;
    }
    }
    rescale(c, v);
    by_type(c, permute(c, v, n), n);
}

LAW(large, 3000, 40000, "matrices of order 20 to 110, of low rank or definite; non-trivial: a non-null covariance") {
    const int n = c.chance(1, 5) ? c.range(64, 110) : c.range(20, 64);
    std::vector<L> v(n * n), s(n);
    for (auto &x : s) x = gen_uniform(c, 0.25, 2);
    switch (c.range(0, 2)) {
    case 0: { // a few common causes and one of each variable
        const int k = c.range(1, 3);
        std::vector<L> f(n * k);
        for (auto &x : f) x = gen_uniform(c, -1, 1);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            L t = i == j ? 0.25L : 0;
            for (int l = 0; l < k; ++l) t += f[i * k + l] * f[j * k + l];
            v[i * n + j] = t * s[i] * s[j];
        }
        c.label("common causes");
        break;
    }
    case 1: { // correlation decaying with the distance
        const L r = gen_uniform(c, -0.95, 0.95);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) v[i * n + j] = std::pow(r, std::abs(i - j)) * s[i] * s[j];
        c.label("decaying correlation");
        break;
    }
    default: { // low rank, small integers
        const int k = c.range(1, 4);
        std::vector<int> f(n * k);
        for (auto &x : f) x = c.range(-2, 2);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            L t = 0;
            for (int l = 0; l < k; ++l) t += f[i * k + l] * f[j * k + l];
            v[i * n + j] = t;
        }
        c.label("low rank");
    }
    }
    by_type(c, c.chance(1, 2) ? permute(c, v, n) : v, n);
}

template<typename Real>
static bool rejected(const std::vector<Real> &mu, const std::vector<Real> &b) {
    try { unc::ureals<std::vector<unc::UReal<Real>>>(mu, b); } catch (const std::exception &) { return true; }
    return false;
}

LAW(indefinite, 200000, 1500000, "matrices with a negative eigenvalue beyond rounding (below -1e-11 of the largest in double precision, -1e-3 in single, diagonal scaled to one when possible) are rejected; every case is non-trivial") {
    const int n = c.range(1, 6);
    std::vector<L> v = positive_definite(c, n, c.chance(1, 2) ? 0 : 3);
    const int i = c.range(0, n - 1), j = c.range(0, n - 1);
    std::string how;
    if (i == j || n == 1) {
        v[i * n + i] = -v[i * n + i];
        how = "negative variance";
        if (c.chance(1, 4)) { for (auto &x : v) x = 0; v[i * n + i] = -gen_positive(c, 3); how = "a negative variance and nothing else"; }
    } else if (c.chance(1, 2)) {
        const L f = 1 + std::pow(10.0L, -(c.chance(1, 2) ? c.range(0, 2) : c.range(3, 10)));
        v[i * n + j] = v[j * n + i] = (c.chance(1, 2) ? -f : f) * std::sqrt(v[i * n + i] * v[j * n + j]);
        how = "correlation above one";
    } else if (c.chance(1, 3)) {
        // just beyond a singular one
        v = low_rank(c, n, c.chance(1, 2) ? 0 : 3, false);
        const L f = std::pow(10.0L, -c.range(1, 10));
        if (c.chance(1, 2)) for (int a = 0; a < n; ++a) v[a * n + a] *= 1 - f;
        else v[i * n + i] *= 1 - f;
        how = "slightly indefinite";
    } else {
        // flip or move correlations until there is a negative eigenvalue
        for (int t = 0; t < n; ++t) {
            const int a = c.range(0, n - 1), b = c.range(0, n - 1);
            if (a != b) v[a * n + b] = v[b * n + a] = gen_uniform(c, -0.99, 0.99) * std::sqrt(v[a * n + a] * v[b * n + b]);
        }
        if (c.chance(1, 3) && n > 1) { // a null variance with a covariance
            v[i * n + i] = 0;
            how = "covariance with a null variance";
        } else how = "inconsistent correlations";
    }
    // eigenvalues with unit diagonal
    std::vector<L> w = v;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
        const L da = std::fabs(v[a * n + a]), db = std::fabs(v[b * n + b]);
        w[a * n + b] /= (da > 0 ? std::sqrt(da) : 1) * (db > 0 ? std::sqrt(db) : 1);
    }
    auto ev = jacobi_eigenvalues(w, n);
    const L lo = *std::min_element(ev.begin(), ev.end()), hi = *std::max_element(ev.begin(), ev.end());
    const L top = std::max(hi, -lo);
    if (!(lo < -1e-11L * top)) throw pbt::Discard{};
    if (!(lo < -1e-3L * top)) c.label("an eigenvalue between -1e-3 and -1e-11");
    v = permute(c, v, n);
    std::vector<double> mu(n), b(n * n);
    std::vector<float> muf(n), bf(n * n);
    for (int a = 0; a < n; ++a) for (int d = 0; d < n; ++d) { b[a + n * d] = static_cast<double>(v[a * n + d]); bf[a + n * d] = static_cast<float>(v[a * n + d]); }
    NOTE(c, how << ": " << show(v, n));
    CHECK_THAT(c, rejected(mu, b), "the indefinite matrix " << show(v, n) << " (" << how << ", lowest eigenvalue " << lo << ") is accepted");
    if (lo < -1e-3L * top) CHECK_THAT(c, rejected(muf, bf), "in single precision, the indefinite matrix " << show(v, n) << " (" << how << ", lowest eigenvalue " << lo << ") is accepted");
    c.label(how);
    c.nontrivial();
}

LAW(sizes, 40000, 400000, "matrix buffers of the wrong size throw std::invalid_argument, of the right one are accepted, an empty input gives an empty output; non-trivial: wrong size") {
    const int n = c.range(0, 9);
    int m;
    switch (c.range(0, 5)) {
    case 0: m = n * n; break;
    case 1: m = n * n + c.range(-2, 2); break;
    case 2: m = n * c.range(0, 10); break;
    case 3: m = n * (n + 1) / 2; break;
    case 4: m = (n + 1) * (n + 1); break;
    default: m = c.range(0, 120); break;
    }
    if (m < 0) throw pbt::Discard{};
    std::vector<double> mu(n, 1.0), b(m);
    for (int i = 0; i < m; ++i) b[i] = n ? (i % (n + 1) == 0) : 1;
    NOTE(c, n << " means and " << m << " elements");
    bool thrown = false;
    std::vector<unc::udouble> x;
    try { x = unc::ureals<std::vector<unc::udouble>>(mu, b); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK_THAT(c, thrown == (m != n * n), n << " means and " << m << " matrix elements " << (thrown ? "are rejected" : "are accepted"));
    if (!thrown) CHECK_THAT(c, static_cast<int>(x.size()) == n, x.size() << " variables from " << n << " means");
    if (m != n * n) c.nontrivial();
}
