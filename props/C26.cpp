// C26: no input or history causes undefined behaviour, a crash or a hang.
// The program is built with the address and undefined-behaviour sanitizers and
// with assertions enabled; each law fails if an operation ends in any way
// other than returning or throwing a standard exception.
#include "../lib/chaos.hpp"
#include "../lib/fmtgen.hpp"
#include <cstdlib>
#include <new>

#ifndef C26_PART
#error "C26_PART not defined"
#endif

// live blocks allocated with new, for the law on leaks
extern long g_live;
#if C26_PART == 3
long g_live = 0;
void *operator new(std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++g_live;
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) --g_live; std::free(p); }
void operator delete[](void *p) noexcept { if (p) --g_live; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) --g_live; std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) --g_live; std::free(p); }
#endif

static std::vector<std::uint64_t> tape(pbt::Case &c, int n, int per) {
    std::vector<std::uint64_t> v;
    for (int i = 0; i < n * per; ++i) v.push_back(c.draw(~0ull >> 16));
    return v;
}

template<typename U>
static void history(pbt::Case &c, int max_steps) {
    const int n = c.range(1, max_steps);
    const auto t = tape(c, n, 12);
    double sink = 0;
    const Went w = chaos<U>(t, n, sink);
    if (w.done >= 5) c.nontrivial();
    if (w.threw) c.label("a step threw");
}

#if C26_PART == 0
LAW(first, 60000, 2000000, "random histories of up to 40 public operations on UReal with special values; non-trivial: at least 5 operations returned") {
    switch (c.weighted({4, 2, 2})) {
    case 0: c.label("double"); history<unc::UReal<double>>(c, 40); break;
    case 1: c.label("float"); history<unc::UReal<float>>(c, 40); break;
    default: c.label("long double"); history<unc::UReal<long double>>(c, 40); break;
    }
}

#endif

#if C26_PART == 3
LAW(leaks, 6000, 200000, "the same history run twice leaves no more memory allocated the second time, also when operations throw; non-trivial: at least 5 operations returned and one threw") {
    const bool second = c.chance(2, 3);
    const int n = c.range(1, 24);
    const auto t = tape(c, n, 12);
    double sink = 0;
    Went w;
    long before = 0, after = 0;
    for (int k = 0; k < 2; ++k) {
        before = g_live;
        w = second ? chaos<unc::udouble2e>(t, n, sink) : chaos<unc::udouble>(t, n, sink);
        after = g_live;
    }
    CHECK_THAT(c, after == before, after - before << " blocks of memory are not given back by a history of " << n << " operations on " << (second ? "second" : "first") << " order variables");
    if (w.done >= 5 && w.threw) c.nontrivial();
}
#endif

#if C26_PART == 1
LAW(second_est, 12000, 400000, "random histories of up to 24 public operations on UReal2 (unbiased estimate) with special values and moments; non-trivial: at least 5 operations returned") {
    history<unc::UReal2<double, unc::Prop::est>>(c, 24);
}
#endif

#if C26_PART == 4
LAW(second_mean, 6000, 200000, "random histories of up to 24 public operations on UReal2 (mean of the propagated distribution) with special values and moments; non-trivial: at least 5 operations returned") {
    history<unc::UReal2<double, unc::Prop::mean>>(c, 24);
}
#endif

#if C26_PART == 5
LAW(second_float, 6000, 200000, "random histories of up to 24 public operations on UReal2 (float) with special values and moments; non-trivial: at least 5 operations returned") {
    history<unc::UReal2<float, unc::Prop::est>>(c, 24);
}
#endif

#if C26_PART == 2
namespace user {
    template<typename Real> struct Number { Real n, s; };
    template<typename Real> Real nom(const Number<Real> &x) { return x.n; }
    template<typename Real> Real sdev(const Number<Real> &x) { return x.s; }
}

template<typename Real>
static void formatting(pbt::Case &c) {
    const auto v = tape(c, 1, 20);
    Tape t {&v};
    Real mu, s;
    if (c.chance(1, 3)) { fmt_pair<Real>(c, std::numeric_limits<Real>::max_exponent10, mu, s); }
    else { mu = special<Real>(t); s = special<Real>(t); }
    const float e = chaos_errdig(t);
    NOTE(c, Num<Real>::name() << " mean " << text::show(mu) << " deviation " << text::show(s) << " errdig " << e);
    if (!chaos_errdig_small(e)) throw pbt::Discard{};
    std::string sep;
    for (int k = t.below(5); k > 0; --k) sep += static_cast<char>(t.below(256));
    double sink = 0;
    try {
        sink += unc::format(user::Number<Real>{mu, s}, e, sep).size();
        c.nontrivial();
    } catch (const std::exception &ex) { sink += ex.what()[0]; c.label("threw"); }
    try {
        const unc::UReal<Real> x(mu, s);
        std::ostringstream ss;
        ss << x;
        sink += unc::format(x, e, sep).size() + ss.str().size() + x.format(e, sep).size();
    } catch (const std::exception &ex) { sink += ex.what()[0]; }
    try { sink += unc::format(mu, e, sep).size(); } catch (const std::exception &ex) { sink += ex.what()[0]; }
    try { const unc::UReal2<Real, unc::Prop::est> x(mu); sink += x.format(e).size(); } catch (const std::exception &ex) { sink += ex.what()[0]; }
}

LAW(format, 150000, 4000000, "formatting of special values with any number of digits; non-trivial: a text was returned") {
    switch (c.weighted({4, 2, 2})) {
    case 0: formatting<double>(c); break;
    case 1: formatting<float>(c); break;
    default: formatting<long double>(c); break;
    }
}

template<typename Real>
static void matrices(pbt::Case &c) {
    const auto v = tape(c, 14, 12);
    Tape t {&v};
    const int n = t.below(6);
    const int m = t.chance(4, 5) ? n * n : t.below(40);
    const bool wild = t.chance(1, 2);
    const std::vector<Real> mu = [&] { std::vector<Real> a(n); for (auto &x : a) x = value<Real>(t); return a; }();
    std::vector<Real> cv(m);
    for (auto &x : cv) x = wild ? special<Real>(t) : value<Real>(t);
    if (m == n * n && t.chance(1, 3)) for (int i = 0; i < n; ++i) cv[i * n + i] = std::fabs(cv[i * n + i]) + 20 * t.below(3); // perhaps valid
    NOTE(c, n << " variables, buffer of " << m);
    double sink = 0;
    try {
        const auto x = unc::ureals<std::vector<unc::UReal<Real>>>(mu, cv);
        for (const auto &a : x) for (const auto &b : x) sink += double(cov(a, b)) + double(corr(a, b));
        c.nontrivial();
    } catch (const std::exception &ex) { sink += ex.what()[0]; c.label("ureals threw"); }
    try {
        for (const auto &a : unc::corr2cov<std::vector<Real>>(mu, cv)) sink += double(a);
    } catch (const std::exception &ex) { sink += ex.what()[0]; }
    const auto nv = unc::nom_vector<std::vector<Real>>(mu);
    CHECK_THAT(c, nv.size() == mu.size(), "size " << nv.size() << " instead of " << mu.size());
}

LAW(matrices, 60000, 2000000, "ureals, corr2cov and the vector helpers with special values and buffers of any size; non-trivial: ureals returned") {
    switch (c.weighted({4, 2, 2})) {
    case 0: matrices<double>(c); break;
    case 1: matrices<float>(c); break;
    default: matrices<long double>(c); break;
    }
}

template<typename U>
static void moments(pbt::Case &c) {
    using Real = typename U::real_type;
    const auto v = tape(c, 6, 12);
    Tape t {&v};
    double sink = 0;
    bool ok = false;
    std::vector<U> x;
    for (int k = 0; k < 3; ++k) {
        try {
            x.push_back(Chaos<U>::make(t));
            ok = true;
        } catch (const std::exception &ex) { sink += ex.what()[0]; c.label("threw"); }
    }
    for (const auto &a : x) {
        for (int n = 1; n <= 4; ++n) sink += double(a.m(n));
        sink += double(a.skew()) + double(a.kurt()) + double(a.s());
        for (const auto &b : x) {
            const U y = (a * b - b) / a + pow(a, b);
            sink += double(y.n()) + double(y.m(3)) + double(cov(y, a));
            try { sink += double(y.hess(a, b)); } catch (const std::exception &ex) { sink += ex.what()[0]; } // exact
        }
    }
    if (ok) c.nontrivial();
}

LAW(moments, 20000, 600000, "variables with arbitrary moments, thresholds and parameters of the distributions, and all their moments; non-trivial: one was accepted") {
    switch (c.weighted({4, 2, 2})) {
    case 0: moments<unc::udouble2e>(c); break;
    case 1: moments<unc::udouble2m>(c); break;
    default: moments<unc::UReal2<float, unc::Prop::est>>(c); break;
    }
}
#endif
