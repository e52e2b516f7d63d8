// ref.hpp -- reference arithmetic with running error bounds.
//
// `Err<Ref>` is a number `v` computed in a type of much higher precision than
// the one under test, with a bound `e` on how far a computation of the same
// expression in the type under test may be from it. Each operation adds
// `kSlack * eps` relative error, eps being the machine epsilon of the type
// under test, on top of the propagated one, so the bound stays valid when the
// library reorders an expression or multiplies by an inverse.
#ifndef REF_HPP
#define REF_HPP

#include <cmath>
#include <cstdint>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>

template<typename Ref>
struct ErrEnv {
    static Ref eps;   // of the type under test (0 if exact)
    static Ref tiny;  // absolute slack for underflow
};
template<typename Ref> Ref ErrEnv<Ref>::eps {0};
template<typename Ref> Ref ErrEnv<Ref>::tiny {0};

constexpr int kSlack = 6;

template<typename Ref>
Ref rabs(const Ref &x) { return x < 0 ? Ref(-x) : x; }
template<typename Ref>
Ref rmax(const Ref &a, const Ref &b) { return a < b ? b : a; }

template<typename Ref>
struct Err {
    Ref v {0}, e {0};
    Err() {}
    Err(int x): v(x) {}
    template<typename T, typename = typename std::enable_if<!std::is_same<T, Err>::value && !std::is_same<T, int>::value>::type>
    Err(const T &x): v(x) {}
    Err(const Ref &x, const Ref &err): v(x), e(err) {}
};

template<typename Ref>
Err<Ref> rnd(const Ref &v, const Ref &e) {
    return Err<Ref>(v, Ref(e + kSlack * ErrEnv<Ref>::eps * rabs(v) + ErrEnv<Ref>::tiny));
}

template<typename Ref>
Err<Ref> operator-(const Err<Ref> &a) { return Err<Ref>(Ref(-a.v), a.e); }
template<typename Ref>
Err<Ref> operator+(const Err<Ref> &a, const Err<Ref> &b) { return rnd<Ref>(Ref(a.v + b.v), Ref(a.e + b.e)); }
template<typename Ref>
Err<Ref> operator-(const Err<Ref> &a, const Err<Ref> &b) { return rnd<Ref>(Ref(a.v - b.v), Ref(a.e + b.e)); }
template<typename Ref>
Err<Ref> operator*(const Err<Ref> &a, const Err<Ref> &b) {
    return rnd<Ref>(Ref(a.v * b.v), Ref(rabs(a.v) * b.e + rabs(b.v) * a.e + a.e * b.e));
}
template<typename Ref>
Err<Ref> operator/(const Err<Ref> &a, const Err<Ref> &b) {
    const Ref lo = rabs(b.v) - b.e;
    const Ref q = b.v == 0 ? Ref(0) : Ref(a.v / b.v);
    if (!(lo > 0)) return Err<Ref>(q, Ref(1e300));
    return rnd<Ref>(q, Ref((a.e + rabs(q) * b.e) / lo));
}
template<typename Ref>
Err<Ref> &operator+=(Err<Ref> &a, const Err<Ref> &b) { return a = a + b; }
template<typename Ref>
Err<Ref> &operator*=(Err<Ref> &a, const Err<Ref> &b) { return a = a * b; }

template<typename Ref>
Err<Ref> sqrt(const Err<Ref> &a) {
    using std::sqrt;
    if (a.v + a.e < 0) return Err<Ref>(Ref(0), Ref(1e300));
    const Ref m = a.v > 0 ? Ref(sqrt(a.v)) : Ref(0);
    const Ref hi = sqrt(Ref(a.v + a.e));
    const Ref lo = a.v > a.e ? Ref(sqrt(Ref(a.v - a.e))) : Ref(0);
    return rnd<Ref>(m, rmax<Ref>(hi - m, m - lo));
}
// `bound` is a bound for the derivative near a
template<typename Ref>
Err<Ref> fun(const Ref &v, const Ref &bound, const Err<Ref> &a) { return rnd<Ref>(v, Ref(bound * a.e)); }

template<typename Ref>
Err<Ref> exp(const Err<Ref> &a) { using std::exp; const Ref v = exp(a.v); const Ref b = exp(Ref(a.v + a.e)); return fun<Ref>(v, b, a); }
template<typename Ref>
Err<Ref> log(const Err<Ref> &a) {
    using std::log;
    const Ref lo = a.v - a.e;
    if (!(lo > 0)) return Err<Ref>(Ref(0), Ref(1e300));
    const Ref v = log(a.v);
    return fun<Ref>(v, Ref(1 / lo), a);
}
template<typename Ref>
Err<Ref> sin(const Err<Ref> &a) { using std::sin; const Ref v = sin(a.v); return fun<Ref>(v, Ref(1), a); }
template<typename Ref>
Err<Ref> cos(const Err<Ref> &a) { using std::cos; const Ref v = cos(a.v); return fun<Ref>(v, Ref(1), a); }
template<typename Ref>
Err<Ref> atan(const Err<Ref> &a) { using std::atan; const Ref v = atan(a.v); return fun<Ref>(v, Ref(1), a); }
template<typename Ref>
Err<Ref> tanh(const Err<Ref> &a) { using std::tanh; const Ref v = tanh(a.v); return fun<Ref>(v, Ref(1), a); }

// Is the number `x` of the library an acceptable value of the reference?
template<typename Ref>
bool near(const Ref &x, const Err<Ref> &r, int safety = 2) {
    const Ref d = rabs(Ref(x - r.v));
    return d <= Ref(safety * r.e);
}

#endif
