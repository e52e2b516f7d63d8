// quad.hpp -- quadruple precision as a class: the reference for long double.
#ifndef QUAD_HPP
#define QUAD_HPP

#include <quadmath.h>
#include <ostream>
#include <type_traits>

struct Quad {
    __float128 x;
    Quad(): x(0) {}
    template<typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value || std::is_same<T, __float128>::value>::type>
    Quad(const T &y): x(y) {}
    template<typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    explicit operator T() const { return static_cast<T>(x); }
    Quad operator-() const { return Quad(-x); }
    Quad operator+() const { return *this; }
    Quad &operator+=(const Quad &y) { x += y.x; return *this; }
    Quad &operator-=(const Quad &y) { x -= y.x; return *this; }
    Quad &operator*=(const Quad &y) { x *= y.x; return *this; }
    Quad &operator/=(const Quad &y) { x /= y.x; return *this; }
    friend Quad operator+(const Quad &a, const Quad &b) { return Quad(a.x + b.x); }
    friend Quad operator-(const Quad &a, const Quad &b) { return Quad(a.x - b.x); }
    friend Quad operator*(const Quad &a, const Quad &b) { return Quad(a.x * b.x); }
    friend Quad operator/(const Quad &a, const Quad &b) { return Quad(a.x / b.x); }
    friend bool operator==(const Quad &a, const Quad &b) { return a.x == b.x; }
    friend bool operator!=(const Quad &a, const Quad &b) { return a.x != b.x; }
    friend bool operator<(const Quad &a, const Quad &b) { return a.x < b.x; }
    friend bool operator>(const Quad &a, const Quad &b) { return a.x > b.x; }
    friend bool operator<=(const Quad &a, const Quad &b) { return a.x <= b.x; }
    friend bool operator>=(const Quad &a, const Quad &b) { return a.x >= b.x; }
    friend std::ostream &operator<<(std::ostream &s, const Quad &a) {
        char b[64];
        quadmath_snprintf(b, sizeof b, "%.25Qg", a.x);
        return s << b;
    }
};
#define QUAD1(name) inline Quad name(const Quad &a) { return Quad(name##q(a.x)); }
QUAD1(fabs) QUAD1(sqrt) QUAD1(exp) QUAD1(log) QUAD1(sin) QUAD1(cos) QUAD1(tan) QUAD1(atan) QUAD1(tanh)
QUAD1(sinh) QUAD1(cosh) QUAD1(asin) QUAD1(acos) QUAD1(floor) QUAD1(ceil) QUAD1(cbrt)
#undef QUAD1
inline Quad abs(const Quad &a) { return fabs(a); }
inline Quad pow(const Quad &a, const Quad &b) { return Quad(powq(a.x, b.x)); }
inline Quad ldexp(const Quad &a, int n) { return Quad(ldexpq(a.x, n)); }
inline bool isfinite(const Quad &a) { return finiteq(a.x); }
inline bool isnan(const Quad &a) { return isnanq(a.x); }

#endif
