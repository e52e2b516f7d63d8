// rational.hpp -- exact rational numbers with nothing but their operators.
#ifndef RATIONAL_HPP
#define RATIONAL_HPP

#include <boost/multiprecision/cpp_int.hpp>
#include <ostream>

class Q {
    boost::multiprecision::cpp_rational v;
public:
    Q(): v(0) {}
    Q(int x): v(x) {}
    explicit Q(double x): v(x) {}
    Q &operator+=(const Q &o) { v += o.v; return *this; }
    Q &operator-=(const Q &o) { v -= o.v; return *this; }
    Q &operator*=(const Q &o) { v *= o.v; return *this; }
    Q &operator/=(const Q &o) { v /= o.v; return *this; }
    Q operator-() const { Q r; r.v = -v; return r; }
    Q operator+() const { return *this; }
    friend Q operator+(Q a, const Q &b) { return a += b; }
    friend Q operator-(Q a, const Q &b) { return a -= b; }
    friend Q operator*(Q a, const Q &b) { return a *= b; }
    friend Q operator/(Q a, const Q &b) { return a /= b; }
    friend bool operator==(const Q &a, const Q &b) { return a.v == b.v; }
    friend bool operator!=(const Q &a, const Q &b) { return a.v != b.v; }
    friend bool operator<(const Q &a, const Q &b) { return a.v < b.v; }
    friend bool operator<=(const Q &a, const Q &b) { return a.v <= b.v; }
    friend bool operator>(const Q &a, const Q &b) { return a.v > b.v; }
    friend bool operator>=(const Q &a, const Q &b) { return a.v >= b.v; }
    double approx() const { return v.convert_to<double>(); }
    // not exact: nothing that is decided with this type uses it
    friend Q sqrt(const Q &a) { return Q(std::sqrt(a.approx())); }
    friend bool isnan(const Q &) { return false; }
    friend bool isinf(const Q &) { return false; }
    friend bool isfinite(const Q &) { return true; }
    friend bool isnormal(const Q &a) { return a.v != 0; }
    friend bool signbit(const Q &a) { return a.v < 0; }
    friend Q abs(const Q &a) { return a < Q(0) ? -a : a; }
    friend std::ostream &operator<<(std::ostream &os, const Q &a) { return os << a.v; }
};
#include <limits>
namespace std {
    template<> class numeric_limits<Q> {
    public:
        static constexpr bool is_specialized = true;
        static Q epsilon() { return Q(0); }
        static Q max() { return Q(1e300); }
        static Q min() { return Q(1e-300); }
        static constexpr int digits10 = 1000;
        static constexpr int digits = 3000;
        static constexpr int max_digits10 = 1000;
        static constexpr int max_exponent = 100000, min_exponent = -100000;
        static constexpr bool is_integer = false, is_signed = true, is_exact = true, has_infinity = false, has_quiet_NaN = false, is_iec559 = false;
        static Q lowest() { return -max(); }
        static Q infinity() { return max(); }
        static Q quiet_NaN() { return Q(0); }
    };
}

#endif
