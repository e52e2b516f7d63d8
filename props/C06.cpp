// C06: concurrent use. Compiled twice: with ThreadSanitizer (few cases, every
// race is reported) and without (many constructions, wrong results are seen).
#include "../lib/prog2.hpp"
#include "../lib/threads.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <algorithm>

using Ref = long double;
using U1 = unc::udouble;
using E2 = unc::udouble2e;
using M2 = unc::udouble2m;

#ifdef C06_TSAN
#define SUFFIX(x) x##_tsan
static const long kScale = 1;
static const int kBurst = 60;
#else
#define SUFFIX(x) x
static const long kScale = 12;
static const int kBurst = 4000;
#endif
#define NAME_(x) #x
#define NAME(x) NAME_(x)

static const std::array<double, 6> normal6 {0, 3, 0, 15, 0, 105};
static const std::array<double, 7> normal7 {1, 0, 3, 0, 15, 0, 105};

// ---- everything used for the first time by many threads at once

template<typename U, typename R>
static void functions(std::ostream &out, const U &x, const U &y) {
    // x in (0, 1), y > 1
    const U v[] = {
        abs(x), fmod(y, x), remainder(y, x), fmax(x, y), fmin(x, y), exp(x), exp2(x), expm1(x), log(x), log10(x), log2(x), log1p(x),
        pow(x, y), sqrt(x), cbrt(x), hypot(x, y), sin(x), cos(x), tan(x), asin(x), acos(x), atan(x), atan2(x, y), sinh(x), cosh(x), tanh(x),
        asinh(x), acosh(y), atanh(x), erf(x), erfc(x), -x, x + y, x - y, x * y, x / y, x + R(1), U(R(2)),
    };
    for (const U &u : v) out << u.n() << " " << u.s() << " " << cov(u, x) << " " << u.grad(y) << " " << isfinite(u) << isnormal(u) << " " << format(u) << " " << format(u, 3.5f, " +/- ") << " " << u << "\n";
    const std::vector<U> w {x, y, x * y};
    for (R m : unc::cov_matrix<std::vector<R>>(w)) out << m << " ";
    for (R m : unc::corr_matrix<std::vector<R>>(w)) out << m << " ";
    for (R m : unc::nom_vector<std::vector<R>>(w)) out << m << " ";
}

template<typename R>
static void all_first(std::ostream &out) {
    using U = unc::UReal<R>;
    const U x(R(0.5), R(0.125)), y(R(1.75), R(0.25));
    functions<U, R>(out, x, y);
    U z = x; z += y; z *= y; z -= x; z /= y;
    out << z.s() << " " << var(z) << " " << change_nom(z, R(3)) << "\n";
    const auto f = unc::uunary<R>(unc::Unary<R>([](const R &t) { return t * t; }));
    const auto g = unc::ubinary<R>(unc::Binary<R>([](const R &t, const R &u) { return t * u; }));
    out << f(x) << g(x, y) << unc::default_step<R>() << " " << unc::default_step<R>(2) << "\n";
    const auto c = unc::ureals<std::vector<U>>(std::vector<R> {1, 2}, std::vector<R> {4, 1, 1, 9});
    out << cov(c[0], c[1]) << " ";
    for (R m : unc::corr2cov<std::vector<R>>(std::vector<R> {2, 3}, std::vector<R> {1, R(0.5), R(0.5), 1})) out << m << " ";
    try { U bad(R(0), R(-1)); } catch (const std::invalid_argument &e) { out << e.what() << "\n"; }
    try { (void)z.grad(z); } catch (const std::invalid_argument &e) { out << e.what() << "\n"; }
}

template<typename R, unc::Prop p>
static void all_second(std::ostream &out) {
    using U = unc::UReal2<R, p>;
    const U x(R(0.5), R(0.125), std::array<R, 6> {0, 3, 0, 15, 0, 105}), y(R(1.75), std::array<R, 7> {R(0.0625), 0, R(3 * 0.00390625), 0, R(15 * 0.000244140625), 0, R(105 * 0.0000152587890625)}, R(1e-3));
    functions<U, R>(out, x, y);
    const U z = x * y * x;
    out << z.m(1) << " " << z.m(2) << " " << z.m(3) << " " << z.m(4) << " " << z.skew() << " " << z.kurt() << " " << z.hess(x, y) << " " << corr(z, x) << "\n";
    const auto f = unc::uunary2<R, p>(unc::Unary<R>([](const R &t) { return t * t; }));
    const auto g = unc::ubinary2<R, p>(unc::Binary<R>([](const R &t, const R &u) { return t * u; }));
    out << f(x) << g(x, y) << unc::distr::normal<U>(R(1), R(2)).kurt() << unc::distr::uniform<U>(R(1), R(2)).s() << unc::distr::chisquare<U>(3).skew() << "\n";
    const unc::UReal2<long double, p> l = z;
    out << l.s() << " " << unc::UReal2<float, unc::Prop::mean>(z).n() << "\n";
    try { U bad(R(0), R(1), std::array<R, 6> {9, 1, 0, 0, 0, 0}); } catch (const std::invalid_argument &e) { out << e.what() << "\n"; }
    try { (void)z.grad(z); } catch (const std::invalid_argument &e) { out << e.what() << "\n"; }
    try { (void)format(z, 0.5f); } catch (const std::invalid_argument &e) { out << e.what() << "\n"; }
}

static std::string everything(const std::vector<int> &order) {
    std::ostringstream out;
    out.precision(17);
    for (int k : order) switch (k) {
    case 0: all_first<double>(out); break;
    case 1: all_first<float>(out); break;
    case 2: all_first<long double>(out); break;
    case 3: all_second<double, unc::Prop::est>(out); break;
    case 4: all_second<double, unc::Prop::mean>(out); break;
    case 5: all_second<float, unc::Prop::est>(out); break;
    default: all_second<long double, unc::Prop::mean>(out); break;
    }
    return out.str();
}

static void first_use(pbt::Case &c) {
    const int T = 2 + static_cast<int>(c.below(5));
    std::vector<int> order {0, 1, 2, 3, 4, 5, 6};
    for (int i = 6; i > 0; --i) std::swap(order[i], order[c.below(i + 1)]);
    std::vector<std::string> out(T);
    const std::string err = together(T, [&](int t) { out[t] = everything(order); });
    CHECK_THAT(c, err.empty(), "exception in a thread: " << err);
    const std::string alone = everything(order);
    for (int t = 0; t < T; ++t) {
        if (out[t] == alone) continue;
        std::istringstream a(out[t]), b(alone);
        std::string x, y;
        while (std::getline(a, x) && std::getline(b, y) && x == y) {}
        CHECK_THAT(c, false, "a result of thread " << t << " is " << x << ", the same computation alone: " << y);
    }
    NOTE(c, T << " threads using every function of the library with seven types at the same time");
    c.nontrivial();
}
static pbt::Register reg_first(NAME(SUFFIX(first_use)), 24 * kScale, 200 * kScale, first_use,
    "threads that use every function of the library at the same time, from the first use in the process on: same results as alone; non-trivial: always", 120, true, true);

static void ids(pbt::Case &c) {
    const int T = 2 + static_cast<int>(c.below(7));
    const int K = kBurst / 2 + static_cast<int>(c.below(kBurst / 2));
    std::vector<std::vector<int>> kinds(T);
    for (auto &k : kinds) {
        const int m = 1 + static_cast<int>(c.below(4));
        for (int i = 0; i < m; ++i) k.push_back(c.range(0, 10));
    }
    std::vector<std::vector<unc::Id>> id(T);
    std::vector<std::vector<U1>> some(T);
    for (auto &v : id) v.resize(K);
    const std::string err = together(T, [&](int t) {
        for (int i = 0; i < K; ++i) {
            unc::Id x = 0;
            switch (kinds[t][i % kinds[t].size()]) {
            case 0: { U1 u(i, 1); x = u.indepid(); if (i < 3) some[t].push_back(u); break; }
            case 1: x = unc::ufloat(1.f, 2.f).indepid(); break;
            case 2: x = E2(1, 2, normal6, -1).indepid(); break;
            case 3: x = M2(1, normal7, -1).indepid(); break;
            case 4: x = i % 16 ? U1(0, 1).indepid() : unc::distr::normal<E2>(0, 1).indepid(); break;
            case 5: x = i % 16 ? U1(0, 1).indepid() : unc::distr::uniform<M2>(0, 1).indepid(); break;
            case 6: x = i % 16 ? U1(0, 1).indepid() : unc::distr::chisquare<M2>(3).indepid(); break;
            case 8: {
                // after a failed construction
                if (i % 8 == 0) try { U1 u(i, -1); } catch (const std::invalid_argument &) {}
                x = U1(i, 1).indepid();
                break;
            }
            case 9: {
                if (i % 16 == 0) try { E2 u(i, i % 32 ? -1 : 1, {9, 1, 0, 0, 0, 0}); } catch (const std::invalid_argument &) {}
                x = i % 16 ? U1(0, 1).indepid() : E2(1, 2, normal6, -1).indepid();
                break;
            }
            case 10: {
                if (i % 16 == 0) try { M2 u(i, {-1, 0, 3, 0, 15, 0, 105}); } catch (const std::invalid_argument &) {}
                x = i % 16 ? unc::ufloat(0, 1).indepid() : M2(1, normal7).indepid();
                break;
            }
            case 7: x = i % 16 ? unc::ufloat2m(1, 2, {0, 3, 0, 15, 0, 105}, -1).indepid()
                               : unc::ureals<std::vector<U1>>(std::vector<double> {1}, std::vector<double> {4})[0].indepid(); break;
            }
            id[t][i] = x;
        }
    });
    CHECK_THAT(c, err.empty(), "exception in a thread: " << err);
    std::vector<unc::Id> all;
    for (int t = 0; t < T; ++t) {
        for (unc::Id x : id[t]) CHECK_THAT(c, x > 0, "a variable created by thread " << t << " has id " << x);
        all.insert(all.end(), id[t].begin(), id[t].end());
    }
    std::sort(all.begin(), all.end());
    const auto d = std::adjacent_find(all.begin(), all.end());
    CHECK_THAT(c, d == all.end(), "two variables created by " << T << " threads have the same id " << *d);
    for (int t = 0; t < T; ++t) for (int q = 0; q < T; ++q) if (t != q) for (auto &x : some[t]) for (auto &y : some[q])
        CHECK_THAT(c, cov(x, y) == 0, "independent variables created by two threads have covariance " << cov(x, y));
    NOTE(c, T << " threads creating " << K << " variables each");
    c.nontrivial();
}
static pbt::Register reg_ids(NAME(SUFFIX(ids)), 40 * kScale, 600 * kScale, ids,
    "threads creating variables of both classes at the same time: all ids differ; non-trivial: always", 120, true, true);

// ---- computations sharing const operands

struct Step { int kind, a, b, fn; double x; };

template<typename U> struct Extra;
template<> struct Extra<U1> {
    static double get(const U1 &x, const U1 &p) { return x.s() + var(x) + unc::sdev(x) + x.grad(p); }
};
template<unc::Prop p> struct Extra<unc::UReal2<double, p>> {
    using U = unc::UReal2<double, p>;
    static double get(const U &x, const U &q) { return x.n() + x.s() + x.m(3) + x.kurt() + x.skew() + x.grad(q) + x.hess(q, q); }
};

template<typename U> U own(double n, double s);
template<> U1 own<U1>(double n, double s) { return U1(n, s); }
template<> E2 own<E2>(double n, double s) { return unc::distr::normal<E2>(n, s); }
template<> M2 own<M2>(double n, double s) { (void) n; return s < 1 ? unc::distr::chisquare<M2>(4) : unc::distr::uniform<M2>(1, 2); }

template<typename U>
static std::string work(const std::vector<U> &shared, const std::vector<U> &probe, const std::vector<Step> &prog,
                        const unc::UUnary<double> *f1) {
    std::vector<U> v;
    std::ostringstream out;
    out.precision(17);
    v.push_back(own<U>(1.5, 0.5));
    for (const Step &s : prog) {
        const U &a = s.a & 1 ? v[(s.a / 2) % v.size()] : shared[(s.a / 2) % shared.size()];
        const U &b = s.b & 1 ? v[(s.b / 2) % v.size()] : shared[(s.b / 2) % shared.size()];
        switch (s.kind) {
        case 0: v.push_back(a + b); break;
        case 1: v.push_back(a * b); break;
        case 2: v.push_back(a - s.x); break;
        case 3: v.push_back(tanh(a) + b); break;
        case 4: v.push_back(exp(-(a * a) / 100)); break;
        case 5: out << cov(a, b) << " " << var(a) << "\n"; break;
        case 6: out << corr(a, b) << "\n"; break;
        case 7: out << Extra<U>::get(a, probe[s.fn % probe.size()]) << " " << a.isindep() << "\n"; break;
        case 8: out << format(a, 2.0f) << "\n"; break;
        case 9: v.push_back(own<U>(s.x, s.fn & 1 ? 0.5 : 2)); break;
        case 10: {
            const auto m = unc::cov_matrix<std::vector<double>>(std::vector<U> {a, b, a});
            for (double x : m) out << x << " ";
            out << "\n";
            break;
        }
        case 11: v.push_back(a); break;
        case 12: {
            std::ostringstream os;
            os << a;
            out << os.str() << "\n";
            break;
        }
        case 13: {
            const std::array<double, 6> bad {2, 1, 0, 0, 0, 0};
            try { E2 x(0, 1, bad); out << "accepted\n"; } catch (const std::invalid_argument &) { out << "rejected\n"; }
            break;
        }
        case 14: {
            const auto x = unc::ureals<std::vector<U1>>(std::vector<double> {1, 2}, std::vector<double> {4, 1, 1, 9});
            out << cov(x[0], x[1]) << " " << x[1].s() << "\n";
            break;
        }
        case 15: if (f1) { const U1 x(s.x, 1); const U1 y = (*f1)(x); out << y.n() << " " << y.s() << "\n"; } break;
        }
    }
    for (auto &x : v) {
        out << x.n() << " " << var(static_cast<const U &>(x)) << " " << x.isindep();
        for (auto &s : shared) out << " " << cov(x, s);
        out << "\n";
    }
    return out.str();
}

template<typename U>
static void sharing(pbt::Case &c) {
    std::vector<U> probe {own<U>(1, 2), own<U>(2, 0.5), own<U>(3, 1)};
    std::vector<U> base {probe[0], probe[0] + probe[1], probe[0] * probe[1] - probe[2], probe[2], U(2), own<U>(1, 3) / (probe[1] + 1)};
    const std::vector<U> &shared = base;
    const auto f1 = unc::uunary<double>(unc::Unary<double>([](const double &x) { return x * x; }), unc::Unary<double>([](const double &x) { return 2 * x; }));
    const int T = 2 + static_cast<int>(c.below(7));
    const bool same = c.chance(1, 2);
    std::vector<std::vector<Step>> prog(T);
    for (int t = 0; t < T; ++t) {
        if (t > 0 && same) { prog[t] = prog[0]; continue; }
        const int n = 3 + static_cast<int>(c.below(20));
        for (int i = 0; i < n; ++i) {
            Step s;
            s.kind = c.range(0, 15);
            s.a = c.range(0, 40);
            s.b = c.range(0, 40);
            s.fn = c.range(0, 10);
            s.x = gen_uniform(c, -2, 2);
            prog[t].push_back(s);
        }
    }
    std::vector<std::string> out(T);
    const std::string err = together(T, [&](int t) { out[t] = work<U>(shared, probe, prog[t], &f1); });
    CHECK_THAT(c, err.empty(), "exception in a thread: " << err);
    for (int t = 0; t < T; ++t) {
        const std::string alone = work<U>(shared, probe, prog[t], &f1);
        CHECK_THAT(c, out[t] == alone, "results of thread " << t << ":\n" << out[t] << "\nthe same computation alone:\n" << alone);
    }
    NOTE(c, T << " threads, first program of " << prog[0].size() << " steps, results:\n" << out[0]);
    c.nontrivial();
}
static void sharing_any(pbt::Case &c) {
    switch (c.below(3)) {
    case 0: sharing<U1>(c); break;
    case 1: sharing<E2>(c); break;
    default: sharing<M2>(c);
    }
}
static pbt::Register reg_sharing(NAME(SUFFIX(sharing)), 150 * kScale, 3000 * kScale, sharing_any,
    "threads running random computations and queries on shared const variables and on their own: same results as alone; non-trivial: always", 120, true, true);
