// gen.hpp -- generators of numbers on top of pbt::Case, and traits of the
// numerical types under test.
#ifndef GEN_HPP
#define GEN_HPP

#include "pbt.hpp"
#include "ref.hpp"
#include "quad.hpp"
#include <cmath>
#include <limits>
#include <uncertainties/ureal.hpp>

// A double with a decimal exponent in about [-e10, e10]; simplest is 0.
// Mixes small integers, simple fractions, short decimals and random mantissas.
inline double gen_double(pbt::Case &c, int e10 = 3, bool allow_zero = true) {
    double x = 0;
    switch (c.weighted({6, 3, 4, 7})) {
    case 0: x = c.range(allow_zero ? 0 : 1, 10); break;
    case 1: x = c.range(allow_zero ? 0 : 1, 32) / 8.0; break;
    case 2: {
        const int m = c.range(1, 999);
        const int e = c.range(0, 2 * e10);
        x = m / 100.0 * std::pow(10.0, (e & 1) ? (e + 1) / 2 : -(e / 2));
        break;
    }
    case 3: {
        const double m = 1.0 + static_cast<double>(c.draw((1ull << 52) - 1)) * 0x1p-52;
        const int e = c.range(0, 2 * (e10 * 10 / 3));
        x = std::ldexp(m, (e & 1) ? (e + 1) / 2 : -(e / 2));
        break;
    }
    }
    return c.chance(1, 2) ? -x : x;
}

inline double gen_positive(pbt::Case &c, int e10 = 3) {
    return std::fabs(gen_double(c, e10, false));
}

// How many identities are used up before each of the first variables of a case:
// so that they are sometimes far from each other, or equal in the low bits.
struct IdGap {
    int gap = 0, left = 8;
    void choose(pbt::Case &c) {
        if (!c.chance(1, 30)) return;
        gap = c.chance(1, 30) ? c.pick({65535, 255}) : c.range(1, 9);
        if (c.verbose) c.notes << gap << " unused variables are created before each of the first ones\n";
    }
    void skip() {
        if (gap == 0 || left-- <= 0) return;
        for (int i = 0; i < gap; ++i) uncertainties::UReal<double>(0, 1);
    }
};

// uniform in [lo, hi]
inline double gen_uniform(pbt::Case &c, double lo, double hi) {
    if (c.chance(1, 4)) return lo + (hi - lo) * c.range(0, 16) / 16.0;
    return lo + (hi - lo) * (static_cast<double>(c.draw((1ull << 53) - 1)) * 0x1p-53);
}

// Traits of the numerical types under test: the reference type, and how to make
// a number that uses the whole precision of the type.
template<typename Real> struct Num;

template<> struct Num<double> {
    using Ref = long double;
    static constexpr bool exact = false;
    static constexpr bool functions = true;
    static const char *name() { return "double"; }
    static Ref eps() { return std::numeric_limits<double>::epsilon(); }
    static Ref tiny() { return 64 * std::numeric_limits<double>::denorm_min(); }
    static double make(pbt::Case &, double d) { return d; }
    static Ref ref(double x) { return x; }
};
template<> struct Num<long double> {
    using Ref = Quad;
    static constexpr bool exact = false;
    static constexpr bool functions = true;
    static const char *name() { return "long double"; }
    static Ref eps() { return std::numeric_limits<long double>::epsilon(); }
    static Ref tiny() { return 64 * std::numeric_limits<long double>::denorm_min(); }
    static long double make(pbt::Case &c, double d) { return static_cast<long double>(d) * (1 + static_cast<long double>(c.draw(1023)) * 0x1p-63L); }
    static Ref ref(long double x) { return x; }
};
template<> struct Num<float> {
    using Ref = long double;
    static constexpr bool exact = false;
    static constexpr bool functions = true;
    static const char *name() { return "float"; }
    static Ref eps() { return std::numeric_limits<float>::epsilon(); }
    static Ref tiny() { return 64 * std::numeric_limits<float>::denorm_min(); }
    static float make(pbt::Case &, double d) { return static_cast<float>(d); }
    static Ref ref(float x) { return x; }
};

#endif
