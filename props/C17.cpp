// C17: the covariance-matrix helpers are the elementwise definition.
#include "../lib/prog1.hpp"
#include "../lib/prog2.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <stdexcept>
#include <valarray>
#include <uncertainties/stat.hpp>

// Bits of a number, so that nan == nan
template<typename R>
static bool same(R a, R b) { return a == b || (std::isnan(a) && std::isnan(b)); }

template<typename R>
static void kinds(MakeU<unc::UReal<R>> &, std::size_t, pbt::Case &) {}
template<typename M>
static void kinds(M &make, std::size_t n, pbt::Case &c) {
    for (std::size_t i = 0; i < n; ++i) make.kind.push_back(c.range(0, 3));
}

// variables made by a random program
template<typename U>
static std::vector<U> variables(pbt::Case &c) {
    const bool single = std::is_same<typename U::real_type, float>::value;
    ErrEnv<long double>::eps = single ? Num<float>::eps() : Num<double>::eps();
    ErrEnv<long double>::tiny = single ? Num<float>::tiny() : Num<double>::tiny();
    Weights2 w;
    w.max_ops = 5;
    Program<long double> p;
    p.generate(c, w);
    MakeU<U> make;
    kinds(make, p.ind.size(), c);
    auto a = exec<U>(p, make);
    std::vector<U> out;
    const int n = c.chance(1, 20) ? c.range(8, 40) : c.range(0, 7);
    for (int i = 0; i < n; ++i) {
        if (c.chance(1, 10)) out.push_back(U(static_cast<typename U::real_type>(gen_double(c, 2)))); // exact
        else out.push_back(a[c.range(0, static_cast<int>(a.size()) - 1)]);
    }
    return out;
}

// An output iterator that counts and forgets nothing
template<typename R>
struct Recorder {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::vector<R> *log;
    struct Ref { std::vector<R> *log; void operator=(const R &x) { log->push_back(x); } };
    Ref operator*() { return {log}; }
    Recorder &operator++() { return *this; }
    Recorder operator++(int) { return *this; }
};

template<typename U, typename In>
static void containers(pbt::Case &c, const char *what, const std::vector<U> &x, bool corr_) {
    using R = typename U::real_type;
    const std::size_t n = x.size();
    std::vector<R> want(n * n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) want[n * i + j] = corr_ ? corr(x[i], x[j]) : cov(x[i], x[j]);
    // either order of the arguments will do, up to rounding
    std::vector<R> dev(n, 1);
    if (!corr_) for (std::size_t i = 0; i < n; ++i) dev[i] = x[i].s();
    auto tol = [&](std::size_t k) { return 450 * std::max(std::numeric_limits<R>::epsilon(), R(1e-16)) * dev[k / n] * dev[k % n]; };
    const In in(x.begin(), x.end());
    const char *name = corr_ ? "corr_matrix" : "cov_matrix";
    auto check = [&](const char *how, const std::vector<R> &got) {
        CHECK_THAT(c, got.size() == n * n, name << " of " << n << " variables in a " << what << ", " << how << ": " << got.size() << " elements");
        for (std::size_t k = 0; k < n * n; ++k) {
            CHECK_THAT(c, same(got[k], want[k]) || same(got[k], want[n * (k % n) + k / n]) || std::fabs(got[k] - want[k]) <= tol(k), name << " of " << n << " variables in a " << what << ", " << how << ": element (" << k / n << ", " << k % n << ") is " << got[k] << " instead of " << want[k]);
        }
    };
    // by value
    {
        const auto m = corr_ ? unc::corr_matrix<std::vector<R>>(in) : unc::cov_matrix<std::vector<R>>(in);
        check("into a vector", m);
    }
    {
        const auto m = corr_ ? unc::corr_matrix<std::list<R>>(in) : unc::cov_matrix<std::list<R>>(in);
        check("into a list", std::vector<R>(m.begin(), m.end()));
    }
    {
        const auto m = corr_ ? unc::corr_matrix<std::valarray<R>>(in) : unc::cov_matrix<std::valarray<R>>(in);
        check("into a valarray", std::vector<R>(std::begin(m), std::end(m)));
    }
    {
        const auto m = corr_ ? unc::corr_matrix<std::vector<long double>>(in) : unc::cov_matrix<std::vector<long double>>(in);
        check("into a vector of another type", std::vector<R>(m.begin(), m.end()));
    }
    // by iterators, with cells around that must not be touched
    {
        const R guard = 1234567;
        std::vector<R> buf(n * n + 6, guard);
        const auto end = corr_ ? unc::corr_matrix(in.begin(), in.end(), buf.begin() + 3) : unc::cov_matrix(in.begin(), in.end(), buf.begin() + 3);
        CHECK_THAT(c, end - buf.begin() == static_cast<std::ptrdiff_t>(3 + n * n), name << " of " << n << " variables in a " << what << ": the returned iterator is advanced by " << end - (buf.begin() + 3));
        for (std::size_t k = 0; k < 3; ++k) CHECK_THAT(c, buf[k] == guard && buf[n * n + 3 + k] == guard, name << " of " << n << " variables in a " << what << " writes outside of the output");
        check("to an iterator", std::vector<R>(buf.begin() + 3, buf.begin() + 3 + n * n));
    }
    {
        std::vector<R> log;
        Recorder<R> rec {&log};
        auto r = corr_ ? unc::corr_matrix(in.begin(), in.end(), rec) : unc::cov_matrix(in.begin(), in.end(), rec);
        check("to an output iterator", log);
        *r = 0;
        CHECK_THAT(c, log.size() == n * n + 1, "the returned output iterator is not the advanced one");
    }
    {
        std::deque<R> out;
        if (corr_) unc::corr_matrix(in.begin(), in.end(), std::back_inserter(out)); else unc::cov_matrix(in.begin(), in.end(), std::back_inserter(out));
        check("to a back inserter", std::vector<R>(out.begin(), out.end()));
    }
    // a range within the container
    if (n >= 2) {
        std::vector<R> out(n * n, R(-7));
        auto b = in.begin(), e = in.end();
        ++b;
        if (corr_) unc::corr_matrix(b, e, out.begin()); else unc::cov_matrix(b, e, out.begin());
        for (std::size_t i = 0; i + 1 < n; ++i) for (std::size_t j = 0; j + 1 < n; ++j)
            CHECK_THAT(c, same(out[(n - 1) * i + j], want[n * (i + 1) + j + 1]) || same(out[(n - 1) * i + j], want[n * (j + 1) + i + 1]) || std::fabs(out[(n - 1) * i + j] - want[n * (i + 1) + j + 1]) <= tol(n * (i + 1) + j + 1), name << " of a subrange in a " << what << ": element (" << i << ", " << j << ")");
        for (std::size_t k = (n - 1) * (n - 1); k < n * n; ++k) CHECK_THAT(c, out[k] == R(-7), name << " of a subrange writes outside of the output");
    }
    // the means
    {
        const auto m = unc::nom_vector<std::vector<R>>(in);
        CHECK_THAT(c, m.size() == n, "nom_vector of " << n << " variables in a " << what << " has " << m.size() << " elements");
        const auto l = unc::nom_vector<std::list<R>>(in);
        auto it = l.begin();
        for (std::size_t i = 0; i < n; ++i, ++it) CHECK_THAT(c, same(m[i], x[i].n()) && same(*it, x[i].n()), "nom_vector of a " << what << ": element " << i << " is " << m[i] << " instead of " << x[i].n());
        CHECK_THAT(c, it == l.end(), "nom_vector into a list: too many elements");
    }
    if (n >= 2) c.nontrivial();
    c.label(what);
    c.label(std::to_string(n) + " variables");
}

template<typename U>
static void matrices(pbt::Case &c) {
    const auto x = variables<U>(c);
    const bool cr = c.chance(1, 2);
    NOTE(c, (cr ? "corr_matrix of " : "cov_matrix of ") << x.size() << " variables");
    switch (c.range(0, 3)) {
    case 0: containers<U, std::vector<U>>(c, "vector", x, cr); break;
    case 1: containers<U, std::deque<U>>(c, "deque", x, cr); break;
    case 2: containers<U, std::list<U>>(c, "list", x, cr); break;
    case 3: containers<U, const std::vector<U>>(c, "const vector", x, cr); break;
    }
}

LAW(matrices, 40000, 1000000, "variables from random programs over UReal and UReal2 (both modes) in several containers; exact comparison with cov and corr of each pair; non-trivial: two or more variables") {
    switch (c.range(0, 2)) {
    case 0: matrices<unc::udouble>(c); break;
    case 1: matrices<unc::udouble2e>(c); break;
    default: matrices<unc::udouble2m>(c); break;
    }
}

// Plain numbers work too, where cov and corr are defined for them
namespace user {
struct Obj {
    int id;
    bool isindep() const { return false; }
    unc::Id indepid() const { return unc::invalid_id; }
    int n() const { return id; }
};
inline double cov(const Obj &a, const Obj &b) { return 100.0 * a.id * b.id + a.id + b.id; }
inline double corr(const Obj &a, const Obj &b) { return 1000.0 * a.id * b.id - a.id - b.id; }
inline int nom(const Obj &a) { return a.id; }
inline double var(const Obj &a) { return cov(a, a); }
}

LAW(types, 20000, 500000, "the same with float and long double") {
    switch (c.range(0, 3)) {
    case 0: matrices<unc::ufloat>(c); break;
    case 1: matrices<unc::UReal<long double>>(c); break;
    case 2: matrices<unc::ufloat2m>(c); break;
    default: matrices<unc::UReal2<long double, unc::Prop::est>>(c); break;
    }
}

LAW(any_type, 40000, 400000, "a type of the user, with cov and corr of its own: order of the elements; non-trivial: two or more objects") {
    const int n = c.range(0, 9);
    std::vector<user::Obj> x(n);
    for (int i = 0; i < n; ++i) x[i].id = c.range(0, 99);
    const bool cr = c.chance(1, 2);
    const auto m = cr ? unc::corr_matrix<std::vector<double>>(x) : unc::cov_matrix<std::vector<double>>(x);
    std::vector<double> w;
    if (cr) unc::corr_matrix(x.begin(), x.end(), std::back_inserter(w)); else unc::cov_matrix(x.begin(), x.end(), std::back_inserter(w));
    CHECK_THAT(c, static_cast<int>(m.size()) == n * n && w.size() == m.size(), m.size() << " and " << w.size() << " elements for " << n << " objects");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const double want = cr ? corr(x[i], x[j]) : cov(x[i], x[j]);
        CHECK_THAT(c, m[n * i + j] == want && w[n * i + j] == want, "element (" << i << ", " << j << ") is " << m[n * i + j] << " and " << w[n * i + j] << " instead of " << want);
    }
    NOTE(c, n << " objects");
    if (n >= 2) c.nontrivial();
}

template<typename Out, typename A, typename B>
static void c2c(pbt::Case &c, int n, const std::vector<double> &s, const std::vector<double> &r, bool ok, bool inverse) {
    A sigma(s.size());
    B corr(r.size());
    for (std::size_t i = 0; i < s.size(); ++i) sigma[i] = s[i];
    for (std::size_t i = 0; i < r.size(); ++i) corr[i] = r[i];
    bool thrown = false;
    const long double eps = std::max<long double>({std::numeric_limits<typename A::value_type>::epsilon(), std::numeric_limits<typename B::value_type>::epsilon(), std::numeric_limits<typename Out::value_type>::epsilon()});
    Out v;
    try { v = unc::corr2cov<Out>(sigma, corr); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK_THAT(c, thrown == !ok, n << " deviations and " << r.size() << " correlations " << (thrown ? "are rejected" : "are accepted"));
    if (!ok) return;
    CHECK_THAT(c, v.size() == r.size(), v.size() << " covariances from " << r.size() << " correlations");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const long double want = static_cast<long double>(s[i]) * s[j] * r[n * i + j];
        CHECK_THAT(c, std::fabs(v[n * i + j] - want) <= 4.5L * eps * std::fabs(want), "element (" << i << ", " << j << "): " << s[i] << " * " << s[j] << " * " << r[n * i + j] << " gives " << v[n * i + j]);
    }
    (void)inverse;
}

LAW(corr2cov, 100000, 2000000, "random deviations and correlation buffers (not symmetric, to see the order), right and wrong sizes, several containers; non-trivial: two or more variables and the right size") {
    const int n = c.range(0, 8);
    int m = n * n;
    if (c.chance(1, 3)) switch (c.range(0, 4)) {
    case 0: m = n * c.range(0, 9); break;
    case 1: m = n * n + c.range(-2, 2); break;
    case 2: m = n * (n + 1) / 2; break;
    case 3: m = n; break;
    default: m = c.range(0, 100); break;
    }
    if (m < 0) m = 0;
    std::vector<double> s(n), r(m);
    for (auto &x : s) x = c.chance(1, 10) ? 0 : gen_positive(c, 5);
    for (auto &x : r) x = gen_uniform(c, -1, 1);
    NOTE(c, n << " deviations and " << m << " correlations");
    const bool ok = m == n * n;
    using V = std::vector<double>;
    using F = std::vector<float>;
    using L = std::vector<long double>;
    switch (c.range(0, 5)) {
    case 4:
        for (auto &x : s) x = static_cast<float>(x);
        for (auto &x : r) x = static_cast<float>(x);
        c2c<F, F, F>(c, n, s, r, ok, false);
        break;
    case 5: c2c<L, L, L>(c, n, s, r, ok, false); break;
    case 0: c2c<V, V, V>(c, n, s, r, ok, false); break;
    case 1: c2c<std::deque<double>, std::valarray<double>, std::deque<double>>(c, n, s, r, ok, false); break;
    case 2: c2c<std::valarray<double>, V, V>(c, n, s, r, ok, false); break;
    case 3: c2c<std::vector<long double>, std::deque<double>, std::vector<long double>>(c, n, s, r, ok, false); break;
    }
    if (ok && n >= 2) c.nontrivial();
}

LAW(large, 400, 6000, "up to 400 variables: all the elements of cov_matrix, corr_matrix, corr2cov and nom_vector; every case is non-trivial") {
    using U = unc::udouble;
    const int n = c.chance(1, 2) ? c.range(250, 400) : c.range(40, 250);
    std::vector<U> x;
    std::vector<double> m;
    for (int i = 0; i < n; ++i) {
        const double a = c.range(-100, 100);
        m.push_back(a);
        if (i > 2 && c.chance(1, 3)) x.push_back(binary(x[c.range(0, i - 1)], x[c.range(0, i - 1)], a, 1.0, c.range(-2, 2)));
        else x.push_back(U(a, c.range(1, 8)));
        if (x.back().s() > 1e3) x.back() = U(a, 1);
    }
    NOTE(c, n << " variables");
    const bool cr = c.chance(1, 2);
    const auto v = cr ? unc::corr_matrix<std::vector<double>>(x) : unc::cov_matrix<std::vector<double>>(x);
    std::vector<double> w;
    if (cr) unc::corr_matrix(x.begin(), x.end(), std::back_inserter(w)); else unc::cov_matrix(x.begin(), x.end(), std::back_inserter(w));
    const auto mu = unc::nom_vector<std::vector<double>>(x);
    CHECK_THAT(c, static_cast<int>(v.size()) == n * n && w.size() == v.size() && static_cast<int>(mu.size()) == n, v.size() << ", " << w.size() << ", " << mu.size() << " elements for " << n << " variables");
    std::vector<double> sd;
    for (auto &u : x) sd.push_back(u.s());
    const auto z = unc::corr2cov<std::vector<double>>(sd, v);
    for (int i = 0; i < n; ++i) {
        CHECK_THAT(c, mu[i] == m[i], "nom_vector of " << n << " variables: element " << i << " is " << mu[i] << " instead of " << m[i]);
        for (int j = 0; j < n; ++j) {
            const double want = cr ? corr(x[i], x[j]) : cov(x[i], x[j]), tol = cr ? 1e-13 : 1e-13 * sd[i] * sd[j];
            auto near = [&](double a) { return same(a, want) || std::fabs(a - want) <= tol; };
            CHECK_THAT(c, near(v[n * i + j]) && near(w[n * i + j]), (cr ? "corr_matrix" : "cov_matrix") << " of " << n << " variables: element (" << i << ", " << j << ") is " << v[n * i + j] << ", to an iterator " << w[n * i + j] << ", instead of " << want);
            const double e = sd[i] * sd[j] * v[n * i + j];
            CHECK_THAT(c, same(z[n * i + j], e) || std::fabs(z[n * i + j] - e) <= 1e-15 * std::fabs(e), "corr2cov of " << n << " variables: element (" << i << ", " << j << ") is " << z[n * i + j] << " instead of " << e);
        }
    }
    c.nontrivial();
}

template<typename U>
static void back(pbt::Case &c) {
    // cov_matrix = corr2cov(sigma, corr_matrix) on variables that have uncertainty
    auto x = variables<U>(c);
    std::vector<U> y;
    for (auto &v : x) if (std::isfinite(v.s()) && v.s() > 1e-100 && v.s() < 1e100) y.push_back(v);
    std::vector<double> s;
    for (auto &v : y) s.push_back(v.s());
    const auto cv = unc::cov_matrix<std::vector<double>>(y), cr = unc::corr_matrix<std::vector<double>>(y);
    const auto cv2 = unc::corr2cov<std::vector<double>>(s, cr);
    const std::size_t n = y.size();
    NOTE(c, n << " variables");
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        const double tol = 1e-14 * (std::fabs(cv[n * i + j]) + 1e-300);
        CHECK_THAT(c, std::fabs(cv2[n * i + j] - cv[n * i + j]) <= tol, "element (" << i << ", " << j << "): cov_matrix " << cv[n * i + j] << ", corr2cov of corr_matrix " << cv2[n * i + j]);
    }
    if (n >= 2) c.nontrivial();
}

LAW(round_trip, 40000, 1000000, "corr2cov of the deviations and corr_matrix gives back cov_matrix; non-trivial: two or more variables with uncertainty") {
    switch (c.range(0, 2)) {
    case 0: back<unc::udouble>(c); break;
    case 1: back<unc::udouble2e>(c); break;
    default: back<unc::udouble2m>(c); break;
    }
}
