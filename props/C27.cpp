// C27: isfinite, isnormal.
#include "../lib/gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <algorithm>

namespace unc = uncertainties;

enum class What { plain, huge, small, zero, inf, nan, top, bottom };

template<typename Real> struct Scale;
template<> struct Scale<double> { static constexpr double huge = 1e150, up = 1e200, small = 1e-115, down = 1e-200; };
template<> struct Scale<float> { static constexpr float huge = 1e17f, up = 1e25f, small = 1e-22f, down = 1e-20f; };
template<> struct Scale<long double> { static constexpr long double huge = 1e2000L, up = 1e3500L, small = 1e-1940L, down = 1e-3000L; };

template<typename Real>
static Real value(pbt::Case &c, What w) {
    const Real sign = c.chance(1, 2) ? -1 : 1;
    switch (w) {
    case What::plain: return sign * Real(1 + c.range(0, 15) / 8.0);
    case What::huge: return sign * Scale<Real>::huge;
    case What::small: return sign * Scale<Real>::small;
    case What::zero: return 0;
    case What::top: return sign * std::numeric_limits<Real>::max() / Real(2.5); // finite, but not the sum of two
    case What::bottom: return sign * std::numeric_limits<Real>::min() * 8; // normal, but not the product of two
    case What::inf: return sign * std::numeric_limits<Real>::infinity();
    default: return std::numeric_limits<Real>::quiet_NaN();
    }
}
static const char *name(What w) {
    static const char *s[] = {"plain", "huge", "small", "zero", "infinite", "NaN", "near the maximum", "near the minimum"};
    return s[static_cast<int>(w)];
}

template<typename U>
static U term2(const U &x, typename U::real_type g, typename U::real_type h) { return unary(x, typename U::real_type(0), g, h); }

// A variable with chosen coefficients: all plain but one, multiplied at the
// end by a factor which makes the huge ones overflow or the small ones
// subnormal and leaves the plain ones normal.
template<typename Real, unc::Prop p>
static void second(pbt::Case &c) {
    using U = unc::UReal2<Real, p>;
    const int n = c.range(1, 4);
    const int npos = 1 + n + n * (n + 1) / 2; // mean, gradient, hessian
    // the factor decides what may be poisoned
    const int mode = c.range(0, 2);
    const Real factor = mode == 0 ? Real(1) : mode == 1 ? Scale<Real>::up : Scale<Real>::down;
    std::vector<What> pos(npos, What::plain);
    const int poisoned = c.chance(1, 5) ? 0 : c.chance(1, 5) ? 2 : 1;
    int diag_zero = 0;
    bool off_zero = false, finite = true, normal = true;
    std::string where;
    for (int q = 0; q < poisoned; ++q) {
        const int k = static_cast<int>(c.below(npos));
        What w;
        if (mode == 0) w = c.pick({What::inf, What::nan, What::zero, What::small, What::huge});
        else if (mode == 1) w = c.pick({What::huge, What::zero, What::inf, What::nan});
        else w = c.pick({What::small, What::zero, What::inf, What::nan});
        pos[k] = w;
    }
    if (mode == 0 && c.chance(1, 6)) { // all finite and normal, not their sums or products
        const What w = c.chance(2, 3) ? What::top : What::bottom;
        for (What &q : pos) if (c.chance(1, 2)) q = w; else if (q != What::zero) q = What::plain;
    }
    // the mean is not multiplied: it is given to the last function
    auto outcome = [&](int k) {
        What w = pos[k];
        bool f = true, nn = true;
        if (w == What::inf || w == What::nan) f = nn = false;
        if (w == What::zero) nn = false;
        if (k > 0 && w == What::huge && mode == 1) f = nn = false;
        if (k > 0 && w == What::small && mode == 2) nn = false;
        return std::make_pair(f, nn);
    };
    std::vector<U> x;
    for (int i = 0; i < n; ++i) {
        const Real s = c.pick({Real(1), Real(0.5), Real(2)});
        x.push_back(U(Real(i), s, std::array<Real, 6>{0, 3, 0, 15, 0, 105}));
    }
    // terms
    std::vector<U> terms;
    int k = 1;
    for (int i = 0; i < n; ++i, ++k) {
        const int kh = 1 + n + i;
        terms.push_back(term2(x[i], value<Real>(c, pos[k]), value<Real>(c, pos[kh])));
    }
    k = 1 + 2 * n;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j, ++k) {
        const Real h = value<Real>(c, pos[k]), z(0);
        if (pos[k] == What::zero) { off_zero = true; continue; }
        terms.push_back(c.chance(1, 2) ? binary(x[i], x[j], z, z, z, z, z, h) : binary(x[j], x[i], z, z, z, z, z, h));
    }
    for (std::size_t q = terms.size() - 1; q > 0; --q) std::swap(terms[q], terms[c.below(q + 1)]);
    U y = terms[0];
    for (std::size_t q = 1; q < terms.size(); ++q) y = c.chance(1, 2) ? y + terms[q] : terms[q] + y;
    y = unary(y, value<Real>(c, pos[0]), factor, Real(0));
    for (int q = 0; q < npos; ++q) {
        const auto o = outcome(q);
        if (!o.first) finite = false;
        if (!o.second) {
            if (pos[q] == What::zero && q >= 1 + 2 * n) continue; // absent, not to be decided
            normal = false;
        }
        if (pos[q] != What::plain) {
            std::ostringstream ss;
            ss << " " << (q == 0 ? "mean" : q <= n ? "gradient" : q <= 2 * n ? "diagonal of the hessian" : "off-diagonal hessian") << " (position " << q << "): " << name(pos[q]);
            where += ss.str();
            c.label(std::string(q == 0 ? "mean " : q <= n ? "gradient " : q <= 2 * n ? "diagonal " : "off-diagonal ") + name(pos[q]));
        }
    }
    (void)diag_zero;
    NOTE(c, n << " variables in " << Num<Real>::name() << ", factor " << factor << ";" << (where.empty() ? " all coefficients plain" : where));
    CHECK_THAT(c, isfinite(y) == finite, "isfinite is " << isfinite(y) << " with " << n << " variables in " << Num<Real>::name() << ", factor " << factor << ";" << where);
    if (!off_zero || !normal) CHECK_THAT(c, isnormal(y) == normal, "isnormal is " << isnormal(y) << " with " << n << " variables in " << Num<Real>::name() << ", factor " << factor << ";" << where);
    if (n > 1 && poisoned) c.nontrivial();
    // a plain independent variable and an exact number are finite
    CHECK_THAT(c, isfinite(x[0]) && isfinite(U(Real(2))) && !isfinite(U(std::numeric_limits<Real>::infinity())), "isfinite of plain variables");
    CHECK_THAT(c, isnormal(U(Real(2))) && !isnormal(U(Real(0))), "isnormal of exact numbers");
}

template<typename Real>
static void first(pbt::Case &c) {
    using U = unc::UReal<Real>;
    const int n = c.range(1, 4);
    const int mode = c.range(0, 2);
    const Real factor = mode == 0 ? Real(1) : mode == 1 ? Scale<Real>::up : Scale<Real>::down;
    const int bad = c.range(0, n + 1); // n: the mean; n + 1: none
    What w = What::plain;
    if (mode == 0) w = c.pick({What::inf, What::nan, What::zero, What::huge, What::small});
    else if (mode == 1) w = c.pick({What::huge, What::inf, What::nan, What::zero});
    else w = c.pick({What::inf, What::nan, What::zero});
    if (bad > n) w = What::plain;
    U y(Real(0));
    for (int i = 0; i < n; ++i) {
        const U x(Real(i), c.pick({Real(1), Real(0.5), Real(2)}));
        const U t = unary(x, Real(0), value<Real>(c, i == bad ? w : What::plain));
        if (i == 0) y = t; else if (c.chance(1, 2)) y = y + t; else y += t;
        if (c.chance(1, 6)) (void)y.s();
    }
    const Real mean = value<Real>(c, bad == n ? w : What::plain);
    y = unary(y, mean, factor);
    bool finite = true, normal = true;
    if (w == What::inf || w == What::nan) finite = normal = false;
    if (bad < n && w == What::huge && mode == 1) finite = normal = false;
    // a null mean is not normal, nor a null deviation
    if (w == What::zero && (bad == n || n == 1)) normal = false;
    // squares of the coefficients over- and underflow: decided by s()
    const Real s = y.s();
    const bool f2 = std::isfinite(y.n()) && std::isfinite(s), n2 = std::isnormal(y.n()) && std::isnormal(s);
    std::ostringstream ss;
    ss << n << " variables in " << Num<Real>::name() << ", factor " << factor << (bad > n ? std::string(", all coefficients plain") : std::string(bad == n ? ", mean " : ", derivative ") + name(w)) << "; mean " << y.n() << ", deviation " << s;
    NOTE(c, ss.str());
    CHECK_THAT(c, isfinite(y) == f2, "isfinite is " << isfinite(y) << " with " << ss.str());
    CHECK_THAT(c, isnormal(y) == n2, "isnormal is " << isnormal(y) << " with " << ss.str());
    if (!finite) CHECK_THAT(c, !isfinite(y) && !isnormal(y), "isfinite or isnormal is true with " << ss.str());
    if (mode == 0 && w != What::huge && w != What::small) CHECK_THAT(c, isfinite(y) == finite && isnormal(y) == normal, "isfinite is " << isfinite(y) << ", isnormal " << isnormal(y) << " with " << ss.str());
    if (n > 1 && bad <= n) c.nontrivial();
    // independent
    const auto any = [&] { return value<Real>(c, c.pick({What::plain, What::inf, What::nan, What::zero, What::top, What::bottom, What::huge})); };
    const Real a = any() * c.pick({Real(1), Real(2)}), b = std::fabs(any()) * c.pick({Real(1), Real(2), std::numeric_limits<Real>::epsilon()});
    const U z(a, b);
    CHECK_THAT(c, isfinite(z) == (std::isfinite(a) && std::isfinite(b)) && isnormal(z) == (std::isnormal(a) && std::isnormal(b)), "isfinite is " << isfinite(z) << ", isnormal " << isnormal(z) << " with mean " << a << ", deviation " << b);
    const U e(a);
    CHECK_THAT(c, isfinite(e) == std::isfinite(a) && !isnormal(e), "isfinite is " << isfinite(e) << ", isnormal " << isnormal(e) << " of the exact number " << a);
}

LAW(second_order, 400000, 8000000, "UReal2 with one or two chosen coefficients infinite, NaN, null, overflowing, subnormal; non-trivial: more than one variable") {
    switch (c.range(0, 5)) {
    case 0: second<double, unc::Prop::est>(c); break;
    case 1: second<double, unc::Prop::mean>(c); break;
    case 2: second<float, unc::Prop::est>(c); break;
    case 3: second<float, unc::Prop::mean>(c); break;
    case 4: second<long double, unc::Prop::est>(c); break;
    default: second<long double, unc::Prop::mean>(c); break;
    }
}
LAW(first_order, 400000, 8000000, "UReal, the same for mean and derivatives") {
    switch (c.range(0, 2)) {
    case 0: first<double>(c); break;
    case 1: first<float>(c); break;
    default: first<long double>(c); break;
    }
}

template<typename U>
static U sum(std::vector<U> t) {
    while (t.size() > 1) {
        std::vector<U> h;
        for (std::size_t i = 0; i + 1 < t.size(); i += 2) h.push_back(t[i] + t[i + 1]);
        if (t.size() % 2) h.push_back(t.back());
        t.swap(h);
    }
    return t[0];
}

// functions of many variables with one coefficient that is not finite, or none
template<unc::Prop p>
static void many_second(pbt::Case &c) {
    using U = unc::UReal2<double, p>;
    const int n = c.chance(1, 4) ? c.range(30, 100) : c.range(5, 30);
    std::vector<U> x;
    for (int i = 0; i < n; ++i) x.push_back(U(double(i), 1.0, std::array<double, 6>{0, 3, 0, 15, 0, 105}));
    std::vector<std::pair<int, int>> mixed;
    const int m = c.range(1, 3 * n);
    for (int k = 0; k < m; ++k) { const int i = c.range(0, n - 1), j = c.range(0, n - 1); if (i != j) mixed.push_back({i, j}); }
    const int npos = 2 * n + static_cast<int>(mixed.size());
    const int where = c.chance(1, 4) ? -1 : c.range(0, npos - 1);
    const bool in_mixed = where >= 2 * n;
    const double bad = c.pick<double>({INFINITY, -INFINITY, std::numeric_limits<double>::quiet_NaN(), 0.0, 1e-310});
    const bool finite = where < 0 || std::isfinite(bad);
    std::vector<U> t;
    auto v = [&](int k) { return k == where ? bad : c.range(1, 8) * 0.25; };
    for (int i = 0; i < n; ++i) { const double g = v(i), h = v(n + i); t.push_back(unary(x[i], 0.0, g, h)); }
    for (std::size_t k = 0; k < mixed.size(); ++k) t.push_back(binary(x[mixed[k].first], x[mixed[k].second], 0.0, 0.0, 0.0, 0.0, 0.0, v(2 * n + static_cast<int>(k))));
    for (std::size_t k = t.size() - 1; k > 0; --k) std::swap(t[k], t[c.below(k + 1)]);
    const U y = sum(t) + U(1);
    const std::string what = where < 0 ? "none" : where < n ? "derivative" : where < 2 * n ? "second derivative" : "mixed derivative";
    NOTE(c, n << " variables, " << mixed.size() << " mixed terms, the " << where << "th coefficient (" << what << ") is " << bad);
    c.label(what);
    CHECK_THAT(c, isfinite(y) == finite, "isfinite is " << isfinite(y) << " with " << n << " variables, " << mixed.size() << " mixed terms, the " << where << "th coefficient (" << what << ") " << bad);
    // in the mixed terms, a pair can occur twice, and null ones need not be there
    if (!in_mixed || !finite) CHECK_THAT(c, isnormal(y) == (where < 0), "isnormal is " << isnormal(y) << " with " << n << " variables, " << mixed.size() << " mixed terms, the " << where << "th coefficient (" << what << ") " << bad);
    if (where >= 0) c.nontrivial();
}
LAW(many, 10000, 200000, "UReal2: functions of up to 100 variables with one coefficient infinite, NaN, null, subnormal, or none; non-trivial: one of them") {
    if (c.chance(1, 2)) many_second<unc::Prop::est>(c); else many_second<unc::Prop::mean>(c);
}
