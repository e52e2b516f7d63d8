// C14: formatting shows the mean and the deviation correctly rounded and aligned.
#include "../lib/pbt.hpp"
#include "../lib/fmtgen.hpp"
#include <algorithm>
#include <array>
#include <sstream>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>

namespace unc = uncertainties;
using text::Q;

// a number with a mean and a deviation, for the documented "any type, provided
// nom and sdev are defined for it"
namespace user {
template<typename Real> struct Number { Real mu, sigma; };
template<typename Real> const Real &nom(const Number<Real> &x) { return x.mu; }
template<typename Real> Real sdev(const Number<Real> &x) { return x.sigma; }
}

template<typename Real> struct Lim {
    // subnormal numbers included; limited by the range of the reference type
    static int max_exp() { return std::min(std::numeric_limits<Real>::max_exponent10 - 1, 2300); }
    static Q eps() { return std::numeric_limits<Real>::epsilon(); }
};

// a correctly rounded rendering of x with `digits` digits or so
template<typename Real>
static void check_round(pbt::Case &c, const char *what, const text::Dec &d, Real x, const std::string &t) {
    const Q ax = text::absq(x), shown = text::absq(d.value());
    const Q unit = text::pow10q(d.place);
    const Q slack = Q(16 + 2 * static_cast<int>(d.digits.size())) * Lim<Real>::eps() * (ax + shown) + Q(4) * std::numeric_limits<Real>::denorm_min();
    CHECK_THAT(c, text::absq(ax - shown) <= unit / 2 + slack, "the " << what << " " << text::show(x) << " is shown as " << text::show(d.value()) << " in '" << t << "', not within half a unit of the last digit");
    CHECK_THAT(c, d.zero() || d.neg == (x < 0), "the " << what << " " << text::show(x) << " has the wrong sign in '" << t << "'");
    CHECK_THAT(c, !(d.neg && x >= 0), "the " << what << " " << text::show(x) << " is shown negative in '" << t << "'");
}

template<typename Real>
static void check_format(pbt::Case &c, Real mu, Real s, const std::string &t, const std::string &sep, float errdig) {
    NOTE(c, "mean " << text::show(mu) << " deviation " << text::show(s) << " errdig " << errdig << " -> '" << t << "'");
    const auto p = text::parse_pair(t, sep);
    CHECK_THAT(c, p.ok, "mean " << text::show(mu) << " and deviation " << text::show(s) << " with " << errdig << " digits are formatted as '" << t << "', which is not a mean and a deviation in plain or common exponent notation");
    CHECK_THAT(c, p.mu.place == p.s.place, "mean " << text::show(mu) << " and deviation " << text::show(s) << " with " << errdig << " digits: not aligned in '" << t << "'");
    check_round<Real>(c, "mean", p.mu, mu, t);
    check_round<Real>(c, "deviation", p.s, s, t);
    CHECK_THAT(c, !p.s.zero(), "the deviation " << text::show(s) << " is shown as zero in '" << t << "'");
    c.nontrivial();
    if (p.has_exp) c.label("exponent");
    if (p.mu.zero()) c.label("mean shown as zero");
    else if (p.mu.lead() > p.s.lead()) c.label("mean larger");
    else if (p.mu.lead() < p.s.lead()) c.label("mean smaller");
    if (mu != 0 && !p.mu.zero() && text::pow10q(p.mu.lead()) > text::absq(mu)) c.label("mean carried to a power of ten");
    if (text::pow10q(p.s.lead()) > Q(s)) c.label("deviation carried to a power of ten");
}

template<typename Real>
static void one(pbt::Case &c) {
    Real mu, s;
    const int max_exp = Lim<Real>::max_exp();
    fmt_pair<Real>(c, max_exp, mu, s);
    if (!std::isfinite(mu) || !std::isfinite(s) || s == 0) throw pbt::Discard{};
    const float errdig = fmt_errdig(c);
    const std::string sep = c.pick<std::string>({" ", " +/- ", " \u00b1 ", "; ", ")e", "|"});
    if (sep == ")e") throw pbt::Discard{}; // ambiguous to read back
    switch (c.range(0, 3)) {
    case 0: check_format<Real>(c, mu, s, unc::format(user::Number<Real>{mu, s}, errdig, sep), sep, errdig); break;
    case 1: {
        const unc::UReal<Real> x(mu, s);
        check_format<Real>(c, x.n(), x.s(), unc::format(x, errdig, sep), sep, errdig);
        break;
    }
    case 2: {
        const unc::UReal<Real> x(mu, s), y = -(-x);
        const Real sy = y.s();
        if (!(sy > 0) || !std::isfinite(sy)) throw pbt::Discard{};
        check_format<Real>(c, y.n(), sy, y.format(errdig, sep), sep, errdig);
        break;
    }
    case 3: {
        const unc::UReal2<Real, unc::Prop::est> x(mu, s, std::array<Real, 6>{0, 3, 0, 15, 0, 105});
        const Real sx = x.s();
        if (!(sx > 0) || !std::isfinite(sx) || !std::isfinite(x.n())) throw pbt::Discard{};
        check_format<Real>(c, x.n(), sx, unc::format(x, errdig, sep), sep, errdig);
        break;
    }
    }
}

LAW(pair, 400000, 12000000, "random mean, positive deviation and number of digits: read the text back; every case is non-trivial") {
    switch (c.weighted({4, 2, 2})) {
    case 0: one<double>(c); break;
    case 1: one<float>(c); break;
    default: one<long double>(c); break;
    }
}

template<typename Real>
static Real any_number(pbt::Case &c, bool special) {
    if (special && c.chance(2, 3)) {
        switch (c.range(0, 2)) {
        case 0: return std::numeric_limits<Real>::infinity();
        case 1: return std::numeric_limits<Real>::quiet_NaN();
        default: return 0;
        }
    }
    const int m = Lim<Real>::max_exp();
    int k = c.chance(2, 3) ? c.range(0, 9) : c.range(0, m);
    if (c.chance(1, 2)) k = -k;
    return fmt_number<Real>(c, k);
}

template<typename Real>
static void check_single(pbt::Case &c, const char *what, Real x, const std::string &t) {
    const auto r = text::parse_single(t);
    CHECK_THAT(c, r.ok, "the " << what << " " << text::show(x) << " is formatted as '" << t << "', which is not a number");
    if (std::isnan(x)) { CHECK_THAT(c, r.nan, "the " << what << " is not a number and is formatted as '" << t << "'"); return; }
    CHECK_THAT(c, !r.nan && r.inf == std::isinf(x), "the " << what << " " << text::show(x) << " is formatted as '" << t << "'");
    CHECK_THAT(c, r.neg == (x < 0), "the " << what << " " << text::show(x) << " has the wrong sign in '" << t << "'");
    if (std::isinf(x)) return;
    if (x == 0) { CHECK_THAT(c, r.d.zero() && !r.has_exp, "the " << what << " 0 is formatted as '" << t << "'"); return; }
    const Q ax = text::absq(x), shown = text::absq(r.d.value());
    CHECK_THAT(c, r.d.sig() >= 6, "the " << what << " " << text::show(x) << " is shown with less than six digits in '" << t << "'");
    const Q slack = Q(16) * Lim<Real>::eps() * ax + Q(4) * std::numeric_limits<Real>::denorm_min();
    CHECK_THAT(c, text::absq(ax - shown) <= text::pow10q(r.d.place) / 2 + slack, "the " << what << " " << text::show(x) << " is shown as '" << t << "', not within half a unit of the last digit");
}

template<typename Real>
static void separately(pbt::Case &c) {
    Real mu, s;
    const std::string sep = c.pick<std::string>({" ", " +/- ", " \u00b1 ", "; "});
    const float errdig = fmt_errdig(c);
    mu = any_number<Real>(c, c.chance(1, 2));
    if (c.chance(1, 2)) mu = -mu;
    s = std::isfinite(mu) ? c.pick<Real>({Real(0), std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::quiet_NaN()}) : any_number<Real>(c, c.chance(1, 2));
    std::string t;
    if (std::isnan(s)) {
        t = unc::format(user::Number<Real>{mu, s}, errdig, sep);
    } else if (s == 0 && c.chance(1, 3)) {
        t = unc::format(mu, errdig, sep); // a plain number
        c.label("plain number");
    } else if (s == 0 && c.chance(1, 2)) {
        t = unc::format(unc::UReal<Real>(mu), errdig, sep);
        c.label("exact UReal");
    } else if (s == 0 && std::isfinite(mu) && c.chance(1, 2)) {
        t = unc::format(unc::UReal2<Real, unc::Prop::est>(mu), errdig, sep);
        c.label("exact UReal2");
    } else {
        t = c.chance(1, 2) ? unc::format(unc::UReal<Real>(mu, s), errdig, sep) : unc::format(user::Number<Real>{mu, s}, errdig, sep);
    }
    NOTE(c, "mean " << text::show(mu) << " deviation " << text::show(s) << " -> '" << t << "'");
    const auto q = t.find(sep);
    CHECK_THAT(c, q != std::string::npos, "no separator in '" << t << "'");
    check_single<Real>(c, "mean", mu, t.substr(0, q));
    check_single<Real>(c, "deviation", s, t.substr(q + sep.size()));
    if (!std::isfinite(mu)) c.label("non-finite mean");
    if (!std::isfinite(s)) c.label("non-finite deviation");
    if (mu < 0) c.label("negative mean");
    if (mu != 0) c.nontrivial();
}

LAW(separate, 200000, 4000000, "null or non-finite deviation, non-finite mean; non-trivial: the mean is not 0") {
    switch (c.weighted({4, 2, 2})) {
    case 0: separately<double>(c); break;
    case 1: separately<float>(c); break;
    default: separately<long double>(c); break;
    }
}
