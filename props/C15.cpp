// C15: the number of digits of the deviation, the notation, the options.
#include "../lib/pbt.hpp"
#include "../lib/fmtgen.hpp"
#include <array>
#include <cmath>
#include <quadmath.h>
#include <sstream>
#include <stdexcept>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>

namespace unc = uncertainties;
using text::Q;

namespace user {
template<typename Real> struct Number { Real mu, sigma; };
template<typename Real> const Real &nom(const Number<Real> &x) { return x.mu; }
template<typename Real> Real sdev(const Number<Real> &x) { return x.sigma; }
}

template<typename Real>
static int max_exp() { return std::min(std::numeric_limits<Real>::max_exponent10 - 1, 1000); }

// the documented rule, with the mantissa before rounding; 0 if too near to the
// border to tell
template<typename Real>
static int expected_digits(Real s, float errdig, bool &carried) {
    carried = false;
    const Q ls = log10q(Q(s));
    const Q frac_s = ls - floorq(ls);
    const int n = static_cast<int>(std::floor(errdig));
    const Q f = Q(errdig) - n;
    const Q tol = Q(4e-5); // the logarithm may be taken in single precision
    if (text::absq(frac_s - f) < tol) return 0;
    if (frac_s < tol || frac_s > 1 - tol) {
        // the mantissa is about 1 or about 10: decided exactly only if it is
        // 1, and larger than any fraction below it
        if (f == 0) return n;
        if (f < tol || f > 1 - tol) return 0;
        if (frac_s < tol) return n + 1;
        // about 10: n digits may or may not carry
        const Q m = powq(10, frac_s);
        const Q half = 10 - text::pow10q(1 - n) / 2;
        // in single precision the logarithm may be that of the power of ten
        if (frac_s > 1 - tol && m < half) return 0;
        if (text::absq(m - half) < 64 * Q(std::numeric_limits<Real>::epsilon()) * 10 * (1 + text::absq(ls))) return 0;
        carried = true;
        return n + 1;
    }
    if (frac_s < f) return n + 1;
    if (f == 0) return n;
    const Q m = powq(10, frac_s);
    const Q half = 10 - text::pow10q(1 - n) / 2;
    if (text::absq(m - half) < 64 * Q(std::numeric_limits<Real>::epsilon()) * 10 * (1 + text::absq(ls))) return 0;
    if (m > half) { carried = true; return n + 1; }
    return n;
}

template<typename Real>
static void digits(pbt::Case &c) {
    Real mu, s;
    fmt_pair<Real>(c, max_exp<Real>(), mu, s);
    float errdig = fmt_errdig(c, std::numeric_limits<Real>::digits10);
    if (c.chance(1, 3)) {
        // a deviation near the border of the fractional part
        const int n = static_cast<int>(std::floor(errdig));
        const Q f = Q(errdig) - n;
        const Q m = powq(10, f) * (1 + Q(c.range(-300, 300)) / 10000);
        const int k = c.range(-8, 8);
        s = static_cast<Real>(k < 0 ? m / text::pow10q(-k) : m * text::pow10q(k));
        c.label("near the fractional border");
    }
    if (!std::isfinite(mu) || !std::isfinite(s) || s < std::numeric_limits<Real>::min() || (mu != 0 && std::fabs(mu) < std::numeric_limits<Real>::min())) throw pbt::Discard{};
    const std::string t = unc::format(user::Number<Real>{mu, s}, errdig, " ; ");
    NOTE(c, "mean " << text::show(mu) << " deviation " << text::show(s) << " errdig " << errdig << " -> '" << t << "'");
    const auto p = text::parse_pair(t, " ; ");
    CHECK_THAT(c, p.ok, "mean " << text::show(mu) << " and deviation " << text::show(s) << " with " << errdig << " digits: can not read '" << t << "'");
    const int got = p.s.sig(), n = static_cast<int>(std::floor(errdig));
    CHECK_THAT(c, got == n || got == n + 1, "deviation " << text::show(s) << " with " << errdig << " digits: " << got << " significant digits in '" << t << "'");
    bool carried;
    const int want = expected_digits<Real>(s, errdig, carried);
    if (want) {
        CHECK_THAT(c, got == want, "deviation " << text::show(s) << " with " << errdig << " digits: " << got << " significant digits instead of " << want << " in '" << t << "'");
        c.nontrivial();
        if (errdig != std::floor(errdig)) c.label(want > n ? "fractional, larger count" : "fractional, smaller count");
        if (carried) c.label("larger count after carrying");
    }
    // the notation: an exponent if and only if there would be zeros on the
    // right that are not significant, or more than one zero after the dot
    const int place = p.s.place, lead = std::max(p.mu.zero() ? -1000000 : p.mu.lead(), p.s.lead());
    const bool want_exp = place > 0 || lead < -1;
    CHECK_THAT(c, p.has_exp == want_exp, "mean " << text::show(mu) << " and deviation " << text::show(s) << " with " << errdig << " digits: exponent notation " << (want_exp ? "needed" : "not needed") << " in '" << t << "'");
    if (p.has_exp) {
        c.label("exponent notation");
        CHECK_THAT(c, p.exp == lead, "mean " << text::show(mu) << " and deviation " << text::show(s) << ": the larger number has not one digit before the dot in '" << t << "'");
    }
}

LAW(count, 300000, 9000000, "significant digits of the deviation and notation, read back from the text, against the documented rule; non-trivial: the rule decides (not within 4e-5 of its border)") {
    switch (c.weighted({4, 2, 2})) {
    case 0: digits<double>(c); break;
    case 1: digits<float>(c); break;
    default: digits<long double>(c); break;
    }
}

template<typename Real>
static void same(pbt::Case &c) {
    Real mu, s;
    fmt_pair<Real>(c, std::min(max_exp<Real>(), 100), mu, s);
    if (!std::isfinite(mu) || !std::isfinite(s)) throw pbt::Discard{};
    if (c.chance(1, 6)) s = 0;
    if (c.chance(1, 12)) mu = std::numeric_limits<Real>::infinity();
    const float errdig = fmt_errdig(c);
    std::string sep;
    const int len = c.range(0, 6);
    for (int i = 0; i < len; ++i) sep += c.pick<std::string>({" ", "+", "-", "/", "\u00b1", "(", ")", "e", ".", "0", "7", "%d", "\n", std::string(1, '\0')});
    NOTE(c, "mean " << text::show(mu) << " deviation " << text::show(s) << " errdig " << errdig << " separator '" << sep << "'");
    const unc::UReal<Real> x(mu, s);
    using U2 = unc::UReal2<Real, unc::Prop::est>;
    const U2 y = s == 0 ? U2(mu) : U2(mu, s, std::array<Real, 6>{0, 3, 0, 15, 0, 105});
    const unc::UReal2<Real, unc::Prop::mean> z(y);
    const std::string t = unc::format(x, errdig, sep);
    // the separator is put verbatim between the two numbers
    const std::string mark = "\x01";
    std::string u = unc::format(x, errdig, mark);
    const auto q = u.find(mark);
    CHECK_THAT(c, q != std::string::npos && u.find(mark, q + 1) == std::string::npos, "the separator does not appear exactly once in '" << u << "'");
    CHECK_THAT(c, u.substr(0, q) + sep + u.substr(q + 1) == t, "the separator '" << sep << "' is not put verbatim in '" << t << "'");
    // the same text from every function and class
    CHECK_THAT(c, unc::format(user::Number<Real>{x.n(), x.s()}, errdig, sep) == t, "UReal " << t << " and another type with the same mean and deviation " << unc::format(user::Number<Real>{x.n(), x.s()}, errdig, sep) << " differ");
    CHECK_THAT(c, x.format(errdig, sep) == t, "UReal: member '" << x.format(errdig, sep) << "', function '" << t << "'");
    const Real sy = y.s();
    if (std::isfinite(mu) && std::isfinite(sy)) {
        const std::string t2 = unc::format(y, errdig, sep);
        CHECK_THAT(c, y.format(errdig, sep) == t2, "UReal2: member '" << y.format(errdig, sep) << "', function '" << t2 << "'");
        CHECK_THAT(c, unc::format(user::Number<Real>{y.n(), sy}, errdig, sep) == t2, "UReal2 and another type with the same mean and deviation differ: '" << t2 << "'");
        CHECK_THAT(c, z.format(errdig, sep) == t2, "UReal2 with the other mode: '" << z.format(errdig, sep) << "', '" << t2 << "'");
        if (sy == s) CHECK_THAT(c, t2 == t, "UReal '" << t << "', UReal2 '" << t2 << "'");
        std::ostringstream s2, s3;
        s2 << y; s3 << z;
        CHECK_THAT(c, s2.str() == y.format(1.5f, " \u00b1 "), "UReal2: stream '" << s2.str() << "'");
        CHECK_THAT(c, s3.str() == y.format(), "UReal2 with the other mode: stream '" << s3.str() << "'");
    }
    // defaults
    const std::string d = unc::format(x, 1.5f, " \u00b1 ");
    std::ostringstream ss;
    ss << std::hex << x << "|" << x;
    CHECK_THAT(c, ss.str() == d + "|" + d, "UReal: stream '" << ss.str() << "', function '" << d << "'");
    CHECK_THAT(c, x.format() == d && unc::format(x) == d, "UReal: default options give '" << x.format() << "', '" << unc::format(x) << "' instead of '" << d << "'");
    CHECK_THAT(c, x.format(errdig) == unc::format(x, errdig, " \u00b1 "), "UReal: default separator gives '" << x.format(errdig) << "'");
    // a plain number is one without deviation
    CHECK_THAT(c, unc::format(mu, errdig, sep) == unc::format(unc::UReal<Real>(mu), errdig, sep), "plain number '" << unc::format(mu, errdig, sep) << "'");
    // a copy, a result, a temporary
    const auto w = x + Real(0);
    if (w.s() == s && w.n() == mu) CHECK_THAT(c, w.format(errdig, sep) == t, "x + 0: '" << w.format(errdig, sep) << "'");
    if (s > 0) c.nontrivial();
}

LAW(same_text, 60000, 1500000, "the same mean and deviation through the function, the members, the streams, both classes, plain numbers and defaults; separator verbatim; non-trivial: positive deviation") {
    switch (c.weighted({4, 2, 2})) {
    case 0: same<double>(c); break;
    case 1: same<float>(c); break;
    default: same<long double>(c); break;
    }
}

template<typename F>
static void must_throw(pbt::Case &c, const char *what, float errdig, F f) {
    bool thrown = false;
    std::string got;
    try { got = f(); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK_THAT(c, thrown, what << " with errdig = " << errdig << " does not throw std::invalid_argument but returns '" << got << "'");
}

LAW(rejected, 20000, 400000, "errdig below 1 or not a number, for any mean and deviation; every case is non-trivial") {
    double mu, s;
    fmt_pair<double>(c, 100, mu, s);
    if (c.chance(1, 4)) s = 0;
    if (c.chance(1, 8)) mu = std::numeric_limits<double>::infinity();
    float errdig;
    switch (c.range(0, 4)) {
    case 0: errdig = static_cast<float>(c.range(-1000, 999)) / 1000.0f; break;
    case 1: errdig = -std::numeric_limits<float>::infinity(); break;
    case 2: errdig = std::numeric_limits<float>::quiet_NaN(); break;
    case 3: errdig = std::nextafter(1.0f, 0.0f); break;
    default: errdig = -static_cast<float>(c.range(0, 1 << 30)); break;
    }
    const unc::udouble x(mu, s);
    NOTE(c, "mean " << mu << " deviation " << s << " errdig " << errdig);
    must_throw(c, "format", errdig, [&] { return unc::format(x, errdig); });
    must_throw(c, "UReal::format", errdig, [&] { return x.format(errdig, ","); });
    must_throw(c, "format of a plain number", errdig, [&] { return unc::format(mu, errdig); });
    if (std::isfinite(mu)) {
        const unc::udouble2e y = s == 0 ? unc::udouble2e(mu) : unc::udouble2e(mu, s, std::array<double, 6>{0, 3, 0, 15, 0, 105});
        must_throw(c, "UReal2::format", errdig, [&] { return y.format(errdig); });
    }
    c.nontrivial();
}

template<typename Real>
static void single(pbt::Case &c) {
    int k = c.chance(2, 3) ? c.range(0, 9) : c.range(0, max_exp<Real>());
    if (c.chance(1, 2)) k = -k;
    Real x = fmt_number<Real>(c, k);
    if (!std::isfinite(x) || std::fabs(x) < std::numeric_limits<Real>::min()) throw pbt::Discard{};
    if (c.chance(1, 2)) x = -x;
    const std::string t = unc::format(x, 2.0f, " ; ");
    NOTE(c, text::show(x) << " -> '" << t << "'");
    const auto q = t.find(" ; ");
    CHECK_THAT(c, q != std::string::npos && t.substr(q + 3) == "0", "'" << t << "' for an exact number");
    const auto r = text::parse_single(t.substr(0, q));
    CHECK_THAT(c, r.ok && !r.inf && !r.nan, "can not read '" << t << "'");
    CHECK_THAT(c, r.d.sig() == 6, text::show(x) << " is shown with " << r.d.sig() << " significant digits in '" << t << "'");
    const bool want_exp = r.d.lead() >= 6 || r.d.lead() < -1;
    CHECK_THAT(c, r.has_exp == want_exp, text::show(x) << ": exponent notation " << (want_exp ? "needed" : "not needed") << " in '" << t << "'");
    if (r.has_exp) CHECK_THAT(c, r.exp == r.d.lead(), text::show(x) << ": not one digit before the dot in '" << t << "'");
    c.nontrivial();
}

LAW(exact_numbers, 100000, 2000000, "numbers without deviation: six significant digits, exponent only when needed; every case is non-trivial") {
    switch (c.weighted({4, 2, 2})) {
    case 0: single<double>(c); break;
    case 1: single<float>(c); break;
    default: single<long double>(c); break;
    }
}
