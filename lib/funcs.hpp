// funcs.hpp -- the mathematical functions of the library: where they are
// smooth, their values in a reference type and their derivatives by high order
// central differences of those values (so no formula for the derivatives is
// written here).
#ifndef FUNCS_HPP
#define FUNCS_HPP

#include "gen.hpp"
#include "rf.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>

namespace unc = uncertainties;

// ---------------------------------------------------------------- one argument

enum F1 { f_abs, f_exp, f_exp2, f_expm1, f_log, f_log10, f_log2, f_log1p, f_sqrt, f_cbrt, f_sin, f_cos, f_tan,
          f_asin, f_acos, f_atan, f_sinh, f_cosh, f_tanh, f_asinh, f_acosh, f_atanh, f_erf, f_erfc, n_f1 };
inline const char *f1_name(int k) {
    static const char *s[] = {"abs", "exp", "exp2", "expm1", "log", "log10", "log2", "log1p", "sqrt", "cbrt", "sin", "cos", "tan",
        "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc"};
    return s[k];
}

template<typename U>
U f1_lib(int k, const U &x) {
    switch (k) {
    case f_abs: return abs(x);
    case f_exp: return exp(x);
    case f_exp2: return exp2(x);
    case f_expm1: return expm1(x);
    case f_log: return log(x);
    case f_log10: return log10(x);
    case f_log2: return log2(x);
    case f_log1p: return log1p(x);
    case f_sqrt: return sqrt(x);
    case f_cbrt: return cbrt(x);
    case f_sin: return sin(x);
    case f_cos: return cos(x);
    case f_tan: return tan(x);
    case f_asin: return asin(x);
    case f_acos: return acos(x);
    case f_atan: return atan(x);
    case f_sinh: return sinh(x);
    case f_cosh: return cosh(x);
    case f_tanh: return tanh(x);
    case f_asinh: return asinh(x);
    case f_acosh: return acosh(x);
    case f_atanh: return atanh(x);
    case f_erf: return erf(x);
    default: return erfc(x);
    }
}

template<typename T>
T f1_ref(int k, const T &x) {
    switch (k) {
    case f_abs: return rf::abs(x);
    case f_exp: return rf::exp(x);
    case f_exp2: return rf::exp2(x);
    case f_expm1: return rf::expm1(x);
    case f_log: return rf::log(x);
    case f_log10: return rf::log10(x);
    case f_log2: return rf::log2(x);
    case f_log1p: return rf::log1p(x);
    case f_sqrt: return rf::sqrt(x);
    case f_cbrt: return rf::cbrt(x);
    case f_sin: return rf::sin(x);
    case f_cos: return rf::cos(x);
    case f_tan: return rf::tan(x);
    case f_asin: return rf::asin(x);
    case f_acos: return rf::acos(x);
    case f_atan: return rf::atan(x);
    case f_sinh: return rf::sinh(x);
    case f_cosh: return rf::cosh(x);
    case f_tanh: return rf::tanh(x);
    case f_asinh: return rf::asinh(x);
    case f_acosh: return rf::acosh(x);
    case f_atanh: return rf::atanh(x);
    case f_erf: return rf::erf(x);
    default: return rf::erfc(x);
    }
}

// A number with a random decimal exponent between lo and hi.
inline double gen_scaled(pbt::Case &c, double lo, double hi) {
    const double m = c.chance(1, 3) ? c.range(1, 9) : 1 + 9 * (static_cast<double>(c.draw((1ull << 53) - 1)) * 0x1p-53);
    const int n = static_cast<int>(hi - lo);
    // small exponents are simpler
    const int z = static_cast<int>(c.below(n + 1));
    int e = (z & 1) ? (z + 1) / 2 : -(z / 2);
    if (e > hi) e = static_cast<int>(hi);
    if (e < lo) e = static_cast<int>(lo);
    return m * std::pow(10.0, e);
}
inline double gen_signed(pbt::Case &c, double lo, double hi) {
    const double x = gen_scaled(c, lo, hi);
    return c.chance(1, 2) ? -x : x;
}

// An argument in the domain where function k is smooth. `wide` also takes
// extreme magnitudes. Returns the argument.
inline double f1_arg(pbt::Case &c, int k, bool wide) {
    const double w = wide ? 1 : 0.1;
    const bool u = c.chance(1, 2);
    switch (k) {
    case f_abs: return gen_signed(c, -100 * w, 100 * w);
    case f_exp: case f_exp2: case f_expm1: case f_sinh: case f_cosh:
        return u ? gen_uniform(c, -30, 30) : gen_signed(c, -10, 0);
    case f_log: case f_log10: case f_log2: case f_sqrt:
        return u ? gen_uniform(c, 0.2, 5) : gen_scaled(c, -90 * w, 90 * w);
    case f_cbrt: return u ? (c.chance(1, 2) ? -1 : 1) * gen_uniform(c, 0.2, 5) : gen_signed(c, -60 * w, 60 * w);
    case f_log1p: return u ? gen_uniform(c, -0.99, 3) : c.chance(1, 2) ? gen_scaled(c, -10, 40 * w) : -1 + gen_scaled(c, -6, -1);
    case f_sin: case f_cos: return u ? gen_uniform(c, -50, 50) : gen_signed(c, -10, 0);
    case f_tan: {
        const double x = u ? gen_uniform(c, -20, 20) : gen_signed(c, -10, -1);
        return x;
    }
    case f_asin: case f_acos: case f_atanh: {
        if (c.chance(1, 3)) return (c.chance(1, 2) ? -1 : 1) * (1 - gen_scaled(c, -6, -2));
        return u ? gen_uniform(c, -0.95, 0.95) : gen_signed(c, -10, -2);
    }
    case f_atan: case f_asinh: return u ? gen_uniform(c, -5, 5) : gen_signed(c, -10, 5);
    case f_tanh: return u ? gen_uniform(c, -12, 12) : gen_signed(c, -10, 0);
    case f_acosh: return c.chance(1, 3) ? 1 + gen_scaled(c, -6, 0) : u ? gen_uniform(c, 1.01, 10) : gen_scaled(c, 1, 30 * w);
    default: return u ? gen_uniform(c, -4.5, 4.5) : gen_signed(c, -10, 0);
    }
}

// Distance of x from the closest singularity or, for entire functions, a
// length on which the function varies by about as much as itself.
template<typename T>
T f1_radius(int k, const T &x) {
    const T a = rf::abs(x), one(1);
    switch (k) {
    case f_abs: case f_log: case f_log10: case f_log2: case f_sqrt: case f_cbrt: return a;
    case f_log1p: return rf::abs(T(1 + x));
    case f_asin: case f_acos: case f_atanh: { const T r = 1 - a; return r; }
    case f_acosh: { const T r = a - 1; return r; }
    case f_atan: case f_asinh: return a > one ? a : one;
    case f_tan: {
        const T co = rf::abs(rf::cos(x));
        return co > T(0.02) ? co : T(0);
    }
    case f_erf: case f_erfc: return one / (1 + a);
    default: return one;
    }
}

// value and first three derivatives, with a bound for their numerical error
template<typename T>
struct D1 { T f, d[4], e[4]; };

// coefficients of the central differences of order 8 on -4..4
template<typename T>
void stencil(T *w1, T *w2) {
    static const int n1[] = {3, -32, 168, -672, 0, 672, -168, 32, -3};
    static const int n2[] = {-9, 128, -1008, 8064, -14350, 8064, -1008, 128, -9};
    for (int i = 0; i < 9; ++i) { w1[i] = T(n1[i]) / 840; w2[i] = T(n2[i]) / 5040; }
}

template<typename T>
bool f1_derivs(int k, const T &x, D1<T> &r) {
    const T R = f1_radius<T>(k, x);
    if (!(R > 0)) return false;
    const T h = R * rf::Step<T>::frac();
    T w1[9], w2[9], f[9], big(0);
    stencil(w1, w2);
    for (int i = 0; i < 9; ++i) {
        f[i] = f1_ref<T>(k, T(x + (i - 4) * h));
        if (rf::abs(f[i]) > big) big = rf::abs(f[i]);
    }
    r.f = f[4];
    T d1(0), d2(0);
    for (int i = 0; i < 9; ++i) { d1 += w1[i] * f[i]; d2 += w2[i] * f[i]; }
    r.d[0] = r.f;
    r.d[1] = d1 / h;
    r.d[2] = d2 / (h * h);
    r.d[3] = (f[6] - 2 * f[5] + 2 * f[3] - f[2]) / (2 * h * h * h);
    // rounding, and conditioning of the reference functions at their arguments
    const T er = rf::Step<T>::eps();
    const T slope = rf::abs(r.d[1]) * (rf::abs(x) + h);
    r.e[0] = 4 * er * (big + slope);
    r.e[1] = 100 * er * (big + slope) / h + rf::pow(rf::Step<T>::frac(), T(8)) * 1000 * big / R;
    r.e[2] = 1000 * er * (big + slope) / (h * h) + rf::pow(rf::Step<T>::frac(), T(8)) * 10000 * big / (R * R);
    r.e[3] = 1000 * er * (big + slope) / (h * h * h);
    return true;
}

// terms that the formulas of the library for the derivatives may cancel
template<typename T>
void f1_extra(int k, const D1<T> &r, T &e1, T &e2) {
    e1 = e2 = T(0);
    if (k == f_tanh) { e1 = T(2); e2 = T(4); }
    (void) r;
}

// ---------------------------------------------------------------- two arguments

enum F2 { f_fmod, f_remainder, f_fmax, f_fmin, f_pow, f_hypot, f_atan2, n_f2 };
inline const char *f2_name(int k) {
    static const char *s[] = {"fmod", "remainder", "fmax", "fmin", "pow", "hypot", "atan2"};
    return s[k];
}

template<typename U>
U f2_lib(int k, const U &x, const U &y) {
    switch (k) {
    case f_fmod: return fmod(x, y);
    case f_remainder: return remainder(x, y);
    case f_fmax: return fmax(x, y);
    case f_fmin: return fmin(x, y);
    case f_pow: return pow(x, y);
    case f_hypot: return hypot(x, y);
    default: return atan2(x, y);
    }
}

template<typename T>
T f2_ref(int k, const T &x, const T &y) {
    switch (k) {
    case f_pow: {
        if (x == 0) return y == 0 ? T(1) : T(0);
        if (x < 0) { // integer exponent
            const T p = rf::pow(T(-x), y);
            const T half = y / 2;
            return rf::floor(half) * 2 == y ? p : T(-p);
        }
        return rf::pow(x, y);
    }
    case f_hypot: return rf::hypot(x, y);
    default: return rf::atan2(x, y);
    }
}

// value, gradient (x, y), hessian (xx, yy, xy), each with its tolerance in
// units of the machine epsilon and its own numerical error
template<typename T>
struct D2 { T f, fs, d[5], s[5], e[5]; };

// `only_x`: derivatives with respect to x only (integer exponent, negative or null base)
// `margin`: distance from the jumps of fmod and remainder, relative to y (null:
// any point but the jumps themselves)
template<typename T>
bool f2_derivs(int k, const T &x, const T &y, D2<T> &r, bool only_x, double margin = 0) {
    for (int i = 0; i < 5; ++i) r.d[i] = r.s[i] = r.e[i] = T(0);
    if (k == f_fmax || k == f_fmin) {
        const T m = rf::abs(x) > rf::abs(y) ? rf::abs(x) : rf::abs(y);
        if (!(rf::abs(T(x - y)) > m * T(1e-6))) return false;
        const bool cx = (k == f_fmax) == (x > y);
        r.f = cx ? x : y;
        r.fs = rf::abs(r.f);
        r.d[0] = T(cx ? 1 : 0);
        r.d[1] = T(cx ? 0 : 1);
        return true;
    }
    if (k == f_fmod || k == f_remainder) {
        const T q = x / y;
        if (!(rf::abs(q) < T(1e8))) return false;
        T n = k == f_fmod ? rf::trunc(q) : rf::floor(T(q + T(0.5)));
        if (k == f_fmod) { // in [0, 1), with the sign of x
            if ((x - n * y) * (x < 0 ? -1 : 1) < 0) n -= q < 0 ? -1 : 1;
            const T frac = rf::abs(T((x - n * y) / y));
            if (n == 0 ? !(frac < 1 - T(margin)) : !(frac > T(margin) && frac < 1 - T(margin))) return false;
        } else {           // nearest integer
            const T frac = rf::abs(T(2 * (x - n * y) / y));
            if (!(frac < 1 - 2 * T(margin))) return false;
        }
        r.f = x - n * y;
        r.fs = rf::abs(x) * T(1e-3);   // these are exact
        r.d[0] = T(1);
        r.d[1] = -n;
        return true;
    }
    const T fr = rf::Step<T>::frac();
    T Rx, Ry;
    if (k == f_pow) {
        const T l = x > 0 ? rf::abs(rf::log(x)) : T(0);
        if (rf::abs(y) * l > T(300)) return false;
        Rx = x == 0 ? T(1) : rf::abs(x) / (1 + rf::abs(y));
        Ry = 1 / (1 + l);
    } else {
        Rx = Ry = rf::hypot(x, y);
        if (k == f_atan2 && y < 0 && rf::abs(x) < Rx) Rx = rf::abs(x);
        if (!(Rx > 0)) return false;
    }
    const T hx = Rx * fr, hy = Ry * fr;
    T w1[9], w2[9], f[9][9], big(0);
    stencil(w1, w2);
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) {
        if (only_x && j != 4) continue;
        f[i][j] = f2_ref<T>(k, T(x + (i - 4) * hx), T(y + (j - 4) * hy));
        if (rf::abs(f[i][j]) > big) big = rf::abs(f[i][j]);
    }
    r.f = f[4][4];
    r.fs = rf::abs(r.f);
    T fx[9], fxx[9];
    for (int j = 0; j < 9; ++j) {
        if (only_x && j != 4) continue;
        fx[j] = fxx[j] = T(0);
        for (int i = 0; i < 9; ++i) { fx[j] += w1[i] * f[i][j]; fxx[j] += w2[i] * f[i][j]; }
        fx[j] /= hx;
        fxx[j] /= hx * hx;
    }
    r.d[0] = fx[4];
    r.d[2] = fxx[4];
    T fy(0), fyy(0), fxy(0), fxxy(0), fxyy(0), fyyy(0);
    if (!only_x) {
        for (int j = 0; j < 9; ++j) {
            fy += w1[j] * f[4][j]; fyy += w2[j] * f[4][j];
            fxy += w1[j] * fx[j]; fxxy += w1[j] * fxx[j]; fxyy += w2[j] * fx[j];
        }
        fy /= hy; fyy /= hy * hy; fxy /= hy; fxxy /= hy; fxyy /= hy * hy;
        fyyy = (f[4][6] - 2 * f[4][5] + 2 * f[4][3] - f[4][2]) / (2 * hy * hy * hy);
    }
    const T fxxx = (f[6][4] - 2 * f[5][4] + 2 * f[3][4] - f[2][4]) / (2 * hx * hx * hx);
    r.d[1] = fy; r.d[3] = fyy; r.d[4] = fxy;
    const T ax = rf::abs(x), ay = rf::abs(y);
    auto sens = [&](const T &g, const T &gx, const T &gy) { return T(rf::abs(g) + ax * rf::abs(gx) + ay * rf::abs(gy)); };
    r.s[0] = sens(r.d[0], r.d[2], r.d[4]);
    r.s[1] = sens(r.d[1], r.d[4], r.d[3]);
    r.s[2] = sens(r.d[2], fxxx, fxxy);
    r.s[3] = sens(r.d[3], fxyy, fyyy);
    r.s[4] = sens(r.d[4], fxxy, fxyy);
    if (k == f_hypot) { const T ih = 1 / r.f; r.s[2] += ih; r.s[3] += ih; r.s[4] += ih; }
    if (k == f_atan2) { const T iq = 1 / (x * x + y * y); r.s[2] += iq; r.s[3] += iq; r.s[4] += iq; }
    if (k == f_pow && x != 0) {
        const T l = 1 + rf::abs(rf::log(ax)), p = rf::abs(r.f);
        r.s[0] += p / ax * ay * l; r.s[1] += p * l; r.s[2] += p / (ax * ax) * ay * (1 + ay) * l; r.s[3] += p * l * l; r.s[4] += p / ax * (1 + ay) * l * l;
    }
    const T er = 1000 * rf::Step<T>::eps() * (1 + ax / hx * fr + ay / hy * fr) , t8 = rf::pow(fr, T(8)) * 10000;
    r.e[0] = (er / fr + t8) * big / Rx;
    r.e[1] = (er / fr + t8) * big / Ry;
    r.e[2] = (er / (fr * fr) + t8) * big / (Rx * Rx);
    r.e[3] = (er / (fr * fr) + t8) * big / (Ry * Ry);
    r.e[4] = (er / (fr * fr) + t8) * big / (Rx * Ry);
    if (k == f_pow) for (int i = 0; i < 5; ++i) r.e[i] *= 100;
    return true;
}

// Arguments of a two-argument function. `exact_y`: the exponent of pow is an
// exact integer and the base may be negative or null.
inline void f2_args(pbt::Case &c, int k, bool wide, bool exact_y, double &x, double &y) {
    switch (k) {
    case f_fmod: case f_remainder:
        y = gen_signed(c, -3, 3);
        x = c.chance(1, 2) ? y * gen_uniform(c, -12, 12) : gen_signed(c, -3, 4);
        if (c.chance(1, 4)) { // within rounding of a multiple or half a multiple of y
            if (c.chance(1, 2)) y = c.range(1, 99) * (c.chance(1, 3) ? -1 : 1) / (c.chance(1, 2) ? 10. : 100.);
            x = y * c.range(-40, 40) / (c.chance(1, 2) ? 1 : 2);
            for (int i = c.range(0, 2); i > 0; --i) x = std::nextafter(x, c.chance(1, 2) ? 1e9 : -1e9);
        }
        return;
    case f_fmax: case f_fmin:
        x = c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -30, 30);
        y = c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -30, 30);
        return;
    case f_pow:
        if (exact_y) {
            y = c.range(0, 8) * (c.chance(1, 3) ? -1 : 1);
            x = c.chance(1, 2) ? gen_uniform(c, -4, 4) : gen_signed(c, -5, 5);
            if (c.chance(1, 8)) x = 0;
            if (y == 0) y = 0;   // not -0
            if (x == 0 && y < 0) x = 1;
        } else {
            x = c.chance(1, 2) ? gen_uniform(c, 0.05, 4) : gen_scaled(c, -5, 5);
            y = c.chance(1, 2) ? gen_uniform(c, -4, 4) : c.chance(1, 2) ? c.range(-6, 6) : gen_signed(c, -4, 0);
        }
        return;
    case f_hypot: {
        const double s = gen_scaled(c, wide ? -80 : -5, wide ? 80 : 5);
        x = s * (c.chance(1, 6) ? 0 : c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -4, 0));
        y = s * (c.chance(1, 6) ? 0 : c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -4, 0));
        return;
    }
    default: {
        const double s = gen_scaled(c, wide ? -60 : -5, wide ? 60 : 5);
        x = s * (c.chance(1, 8) ? 0 : c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -3, 0));
        y = s * (c.chance(1, 8) ? 0 : c.chance(1, 2) ? gen_uniform(c, -3, 3) : gen_signed(c, -3, 0));
    }
    }
}

#endif
