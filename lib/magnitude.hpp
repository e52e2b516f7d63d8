// magnitude.hpp -- arithmetic operators at any magnitude of the operands such
// that results, derivatives and their products with the deviations are normal
// numbers of the type; float and double. Reference in long double.
#ifndef MAGNITUDE_HPP
#define MAGNITUDE_HPP

#include "gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>

namespace magnitude {
using Q = long double;
inline Q qabs(const Q &x) { return x < 0 ? -x : x; }
inline std::string str(Q x) { char b[64]; std::snprintf(b, sizeof b, "%.20Lg", x); return b; }

template<typename R>
bool normal(const Q &x) {
    const Q a = qabs(x);
    return a > Q(std::numeric_limits<R>::min()) * 64 && a < Q(std::numeric_limits<R>::max()) / 64;
}
template<typename R>
bool normal_or_null(const Q &x) { return x == 0 || normal<R>(x); }

// Uniform in the exponent, over the whole range of the type or a part of it.
template<typename R>
R draw(pbt::Case &c) {
    const int lo = std::numeric_limits<R>::min_exponent10, hi = std::numeric_limits<R>::max_exponent10 - 1;
    const int z = static_cast<int>(c.below(2 * static_cast<std::uint64_t>(hi)));
    int e = z & 1 ? (z + 1) / 2 : -(z / 2);
    if (c.chance(1, 2)) e /= 2;
    if (e < lo) e = lo;
    if (e > hi) e = hi;
    R x = static_cast<R>((1 + c.below(8999) / 1000.0L) * std::pow(10.0L, e));
    return c.chance(1, 2) ? -x : x;
}
template<typename R>
R deviation(pbt::Case &c, R x) { return std::abs(x) * static_cast<R>(c.range(1, 64) / 256.0); }

template<typename R>
void expect(pbt::Case &c, R lib, const Q &ref, const Q &tol, const std::string &what) {
    const Q d = qabs(Q(lib) - ref);
    if (!(d <= tol)) FAIL(c, what << " is " << lib << ", expected " << str(ref) << " +- " << str(tol));
}

// Value and derivatives of x op y.
struct Op {
    Q f, fs, g[2], h[3];   // fs: magnitude of the operands of a sum; h: xx, yy, xy
};
inline Op op(int k, const Q &x, const Q &y) {
    Op r {};
    const Q ax = qabs(x), ay = qabs(y);
    switch (k) {
    case 0: r.f = x + y; r.fs = ax > ay ? ax : ay; r.g[0] = 1; r.g[1] = 1; break;
    case 1: r.f = x - y; r.fs = ax > ay ? ax : ay; r.g[0] = 1; r.g[1] = -1; break;
    case 2: r.f = x * y; r.fs = qabs(r.f); r.g[0] = y; r.g[1] = x; r.h[2] = 1; break;
    default: r.f = x / y; r.fs = qabs(r.f); r.g[0] = 1 / y; r.g[1] = -x / y / y; r.h[1] = 2 * x / y / y / y; r.h[2] = -1 / y / y;
    }
    return r;
}
inline const char *name(int k) { static const char *s[] = {"+", "-", "*", "/"}; return s[k]; }

template<typename A, typename B>
auto apply(int k, const A &a, const B &b) -> typename std::decay<decltype(a * b)>::type {
    switch (k) {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    default: return a / b;
    }
}
template<typename A, typename B>
void apply_assign(int k, A &a, const B &b) {
    switch (k) {
    case 0: a += b; break;
    case 1: a -= b; break;
    case 2: a *= b; break;
    default: a /= b;
    }
}

template<typename R>
struct Operands { int k, mode; R x, y, sx, sy; Op r; };

// mode: 0 both uncertain, 1 x exact, 2 y exact
template<typename R>
Operands<R> operands(pbt::Case &c) {
    Operands<R> o;
    o.k = c.range(0, 3);
    o.mode = c.range(0, 2);
    o.x = draw<R>(c);
    o.y = c.chance(1, 2) ? draw<R>(c) : static_cast<R>(o.x * std::pow(10.0, c.range(-6, 6)) * (c.range(1, 16) / 8.0));
    if (!std::isnormal(o.x) || !std::isnormal(o.y)) throw pbt::Discard{};
    o.sx = deviation(c, o.x);
    o.sy = deviation(c, o.y);
    if (!std::isnormal(o.sx) || !std::isnormal(o.sy)) throw pbt::Discard{};
    o.r = op(o.k, o.x, o.y);
    if (o.k < 2 ? !(normal_or_null<R>(o.r.f) && normal<R>(o.r.fs)) : !normal<R>(o.r.f)) throw pbt::Discard{};
    for (int i = 0; i < 2; ++i) if (!normal<R>(o.r.g[i])) throw pbt::Discard{};
    NOTE(c, "x " << name(o.k) << " y, x = " << o.x << " +- " << (o.mode == 1 ? R(0) : o.sx) << ", y = " << o.y << " +- " << (o.mode == 2 ? R(0) : o.sy) << (sizeof(R) == 4 ? ", float" : ", double"));
    return o;
}

template<typename R>
void first(pbt::Case &c) {
    using U = unc::UReal<R>;
    const Q E = std::numeric_limits<R>::epsilon();
    const Operands<R> o = operands<R>(c);
    const Q a = qabs(o.r.g[0]) * Q(o.sx), b = qabs(o.r.g[1]) * Q(o.sy);
    const Q va = o.mode == 1 ? Q(0) : a * a, vb = o.mode == 2 ? Q(0) : b * b;
    if (!normal<R>(a) || !normal<R>(b) || !normal<R>(va + vb) || !normal_or_null<R>(va) || !normal_or_null<R>(vb)) throw pbt::Discard{};
    const U X(o.x, o.sx), Y(o.y, o.sy);
    U f;
    const bool number = c.chance(1, 2);   // the exact one is a plain number
    const bool in_place = c.chance(1, 3);
    if (in_place) {
        f = o.mode == 1 ? U(o.x) : X;
        if (o.mode == 2) { if (number) apply_assign(o.k, f, o.y); else apply_assign(o.k, f, U(o.y)); }
        else apply_assign(o.k, f, Y);
    } else if (o.mode == 0) f = apply(o.k, X, Y);
    else if (o.mode == 1) f = number ? apply(o.k, o.x, Y) : apply(o.k, U(o.x), Y);
    else f = number ? apply(o.k, X, o.y) : apply(o.k, X, U(o.y));
    const std::string what = std::string("x ") + name(o.k) + (in_place ? "= y" : " y");
    expect<R>(c, f.n(), o.r.f, 8 * E * o.r.fs, "the mean of " + what);
    const Q s = std::sqrt(va + vb);
    expect<R>(c, f.s(), s, 16 * E * s, "the standard deviation of " + what);
    expect<R>(c, var(f), va + vb, 32 * E * (va + vb), "the variance of " + what);
    if (o.mode != 1) expect<R>(c, f.grad(X), o.r.g[0], 16 * E * qabs(o.r.g[0]), "the derivative with respect to x of " + what);
    if (o.mode != 2) expect<R>(c, f.grad(Y), o.r.g[1], 16 * E * qabs(o.r.g[1]), "the derivative with respect to y of " + what);
    const Q big = o.r.fs > 1 ? o.r.fs : 1 / o.r.fs;
    if (big > 1e15 || qabs(Q(o.x)) > 1e15 || qabs(Q(o.y)) > 1e15) c.nontrivial();
}

template<typename R, unc::Prop prop>
void second(pbt::Case &c) {
    using U = unc::UReal2<R, prop>;
    const Q E = std::numeric_limits<R>::epsilon();
    const Operands<R> o = operands<R>(c);
    const Q a = qabs(o.r.g[0]) * Q(o.sx), b = qabs(o.r.g[1]) * Q(o.sy);
    if (!normal<R>(a) || !normal<R>(b)) throw pbt::Discard{};
    const std::array<R, 6> mom {{0, 3, 0, 15, 0, 105}};
    const U X(o.x, o.sx, mom, -1), Y(o.y, o.sy, mom, -1);
    const bool number = c.chance(1, 2);
    const U f = o.mode == 0 ? apply(o.k, X, Y) : o.mode == 1 ? number ? apply(o.k, o.x, Y) : apply(o.k, U(o.x), Y) : number ? apply(o.k, X, o.y) : apply(o.k, X, U(o.y));
    const std::string what = std::string("x ") + name(o.k) + " y";
    expect<R>(c, f.first_order_n(), o.r.f, 8 * E * o.r.fs, "the mean of " + what);
    if (o.mode != 1) expect<R>(c, f.grad(X), o.r.g[0], 16 * E * qabs(o.r.g[0]), "the derivative with respect to x of " + what);
    if (o.mode != 2) expect<R>(c, f.grad(Y), o.r.g[1], 16 * E * qabs(o.r.g[1]), "the derivative with respect to y of " + what);
    for (int i = 0; i < 3; ++i) {
        if ((o.mode == 1 && i != 1) || (o.mode == 2 && i != 0)) continue;
        const U &p = i == 1 ? Y : X, &q = i == 0 ? X : Y;
        const Q ss = Q(i == 1 ? o.sy : o.sx) * Q(i == 0 ? o.sx : o.sy), h = o.r.h[i];
        if (!normal<R>(ss) || !normal_or_null<R>(h) || !normal_or_null<R>(h * ss) || !normal_or_null<R>(h * (i == 1 ? o.sy : o.sx))) continue;
        c.label("second derivative");
        expect<R>(c, f.hess(p, q), h, 32 * E * qabs(h), std::string("the derivative with respect to ") + (i == 0 ? "x, x" : i == 1 ? "y, y" : "x, y") + " of " + what);
    }
    const Q big = o.r.fs > 1 ? o.r.fs : 1 / o.r.fs;
    if (big > 1e15 || qabs(Q(o.x)) > 1e15 || qabs(Q(o.y)) > 1e15) c.nontrivial();
}
}

#endif
