// fmtgen.hpp -- numbers that are hard to format: means and deviations around
// powers of ten and half units, of any magnitude and ratio.
#ifndef FMTGEN_HPP
#define FMTGEN_HPP
#include "text.hpp"
#include <algorithm>
#include <limits>

// 10^k times a mantissa in [1, 10), of kinds that exercise the rounding
template<typename Real>
Real fmt_number(pbt::Case &c, int k) {
    using text::Q;
    Q m = 1;
    switch (c.weighted({4, 4, 3, 3, 3})) {
    case 0: m = c.range(1, 9); break;
    case 1: m = 1 + Q(9) * static_cast<Q>(c.draw((1ull << 60) - 1)) / Q(1ull << 60); break;
    case 2: m = Q(c.range(100, 999)) / 100; break;
    case 3: { // a bit below a power of ten: 9.96, 9.9996...
        const int d = c.range(0, 17);
        m = 10 - Q(c.range(1, 99)) / 10 * text::pow10q(-d);
        if (m < 1) m = 1;
        break;
    }
    case 4: { // near half a unit of some digit, and near the border of the fractional digits
        const int d = c.range(0, 6);
        Q u = text::pow10q(-d);
        m = 1 + Q(static_cast<long long>(c.draw(static_cast<std::uint64_t>(9 * text::pow10q(d)) - 1))) * u + u / 2;
        m += m * Q(c.range(-3, 3)) * text::pow10q(-c.range(3, 18));
        break;
    }
    }
    return static_cast<Real>(k < 0 ? m / text::pow10q(-k) : m * text::pow10q(k));
}

inline float fmt_errdig(pbt::Case &c, int max = 16) {
    switch (c.weighted({5, 4, 4, 3})) {
    case 0: return 2.0f;
    case 1: return 1.5f;
    case 2: return static_cast<float>(c.range(2, max));
    default: {
        const float f = 1.0f + static_cast<float>(c.range(1, (max - 1) * 1000)) / 1000.0f;
        return f;
    }
    }
}

// mean and deviation, the deviation positive
template<typename Real>
void fmt_pair(pbt::Case &c, int max_exp, Real &mu, Real &s) {
    int k;
    switch (c.weighted({5, 3, 2})) {
    case 0: k = c.range(0, 6); if (c.chance(1, 2)) k = -k; break;
    case 1: k = c.range(0, 20); if (c.chance(1, 2)) k = -k; break;
    default: k = c.range(0, max_exp); if (c.chance(1, 2)) k = -k - (c.chance(1, 8) ? c.range(0, std::numeric_limits<Real>::digits10 - 1) : 0); break;
    }
    s = fmt_number<Real>(c, k);
    switch (c.weighted({2, 7, 4, 2, 2})) {
    case 0: mu = 0; break;
    case 1: { int d = c.range(0, 8); if (c.chance(1, 3)) d = -d; mu = fmt_number<Real>(c, std::max(-max_exp - std::numeric_limits<Real>::digits10, std::min(max_exp, k + d))); break; }
    case 2: { int d = c.range(0, 20); if (c.chance(1, 2)) d = -d; mu = fmt_number<Real>(c, std::max(-max_exp - std::numeric_limits<Real>::digits10, std::min(max_exp, k + d))); break; }
    case 3: { // a multiple of the deviation plus half of its unit
        mu = static_cast<Real>((text::Q(c.range(0, 2000)) + text::Q(c.range(0, 2)) / 2) * text::pow10q(std::max(-max_exp - std::numeric_limits<Real>::digits10, std::min(max_exp, k - c.range(0, 4))))); break; }
    default: { int d = c.range(0, max_exp); if (c.chance(1, 2)) d = -d - (c.chance(1, 8) ? c.range(0, std::numeric_limits<Real>::digits10 - 1) : 0); mu = fmt_number<Real>(c, d); break; }
    }
    if (c.chance(1, 3)) mu = -mu;
}
#endif
