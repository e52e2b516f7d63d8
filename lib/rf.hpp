// rf.hpp -- real functions for the reference types: __float128 or any type with
// functions found by argument dependent lookup.
#ifndef RF_HPP
#define RF_HPP
#include <quadmath.h>
#include <cmath>

namespace rf {
using Q = __float128;
#define RF1(name) inline Q name(const Q &x) { return name##q(x); } \
    template<typename T> T name(const T &x) { using std::name; return T(name(x)); }
#define RF2(name) inline Q name(const Q &x, const Q &y) { return name##q(x, y); } \
    template<typename T> T name(const T &x, const T &y) { using std::name; return T(name(x, y)); }
RF1(exp) RF1(expm1) RF1(log) RF1(log10) RF1(log2) RF1(log1p) RF1(sqrt) RF1(cbrt) RF1(sin) RF1(cos) RF1(tan)
RF1(asin) RF1(acos) RF1(atan) RF1(sinh) RF1(cosh) RF1(tanh) RF1(asinh) RF1(acosh) RF1(atanh) RF1(erf) RF1(erfc)
RF1(trunc) RF1(floor)
RF2(pow) RF2(hypot) RF2(atan2)
#undef RF1
#undef RF2
template<typename T> T abs(const T &x) { return x < 0 ? T(-x) : x; }

// Hyperbolic and other functions lose accuracy near zero in some libraries
// (quadmath included), which the differences would amplify; these are the
// definitions, used where they do not cancel.
template<typename T> T exp2(const T &x) { return exp(T(x * log(T(2)))); }

template<typename Ref> struct Step;
template<> struct Step<Q> { static Q frac() { return Q(1) / 1024; } static Q eps() { return Q(1e-33); } };
}
#endif
