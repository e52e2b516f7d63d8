// moments1.hpp -- moments of a quadratic function of one or two variables from
// the standardized moments of the variables, in extended precision.
#ifndef MOMENTS1_HPP
#define MOMENTS1_HPP

#include <array>
#include <cmath>

template<typename R>
struct BasicMom9 {
    using Mom9 = BasicMom9;
    static R root(const R &x) { using std::sqrt; return R(sqrt(x)); }
    std::array<R, 9> m {};   // standardized, from 0 to 8
    std::array<R, 9> a {};   // bounds of the absolute ones
    void bounds() {
        for (int n = 0; n <= 8; ++n) a[n] = n % 2 == 0 ? m[n] : n == 8 ? m[8] : root(R(m[n - 1] * m[n + 1]));
    }
    static Mom9 normal() {
        Mom9 r;
        r.m[0] = 1;
        for (int n = 2; n <= 8; n += 2) r.m[n] = r.m[n - 2] * (n - 1);
        r.bounds();
        return r;
    }
    static Mom9 uniform() {
        Mom9 r;
        // on [-sqrt(3), sqrt(3)]: E z^n = 3^(n/2) / (n + 1)
        R p = 1;
        for (int n = 0; n <= 8; n += 2) { r.m[n] = p / (n + 1); p *= 3; }
        r.bounds();
        return r;
    }
    // from the cumulants 2^(n-1) (n-1)! k
    static Mom9 chisquare(R k) {
        R kappa[9] = {0, 0}, mu[9] = {1, 0}, f = 1;
        for (int n = 1; n <= 8; ++n) { kappa[n] = f * k; f *= 2 * n; }
        for (int n = 2; n <= 8; ++n) {
            R binom = n - 1; // C(n - 1, j)
            mu[n] = 0;
            for (int j = 1; j <= n - 1; ++j) {
                mu[n] += binom * kappa[j + 1] * mu[n - 1 - j];
                binom = binom * (n - 1 - j) / (j + 1);
            }
        }
        Mom9 r;
        const R s = root(mu[2]);
        R p = 1;
        for (int n = 0; n <= 8; ++n) { r.m[n] = mu[n] / p; p *= s; }
        r.bounds();
        return r;
    }
};
using Mom9 = BasicMom9<long double>;

// moments of g z + h z^2: first, then central ones
template<typename R>
struct BasicQuadMoments {
    using QuadMoments = BasicQuadMoments;
    static R size_of(const R &x) { return x < 0 ? R(-x) : x; }
    R m[5] {}, size[5] {};
    static QuadMoments of(const BasicMom9<R> &z, R g, R h) {
        QuadMoments q;
        R raw[5], abs[5];
        for (int n = 0; n <= 4; ++n) {
            raw[n] = abs[n] = 0;
            R binom = 1;
            for (int k = 0; k <= n; ++k) { // k factors h z^2
                R t = binom;
                for (int i = 0; i < n - k; ++i) t *= g;
                for (int i = 0; i < k; ++i) t *= h;
                raw[n] += t * z.m[n + k];
                abs[n] += size_of(t) * z.a[n + k];
                binom = binom * (n - k) / (k + 1);
            }
        }
        const R u = raw[1];
        q.m[1] = u;
        q.m[2] = raw[2] - u * u;
        q.m[3] = raw[3] - 3 * u * raw[2] + 2 * u * u * u;
        q.m[4] = raw[4] - 4 * u * raw[3] + 6 * u * u * raw[2] - 3 * u * u * u * u;
        // the moments given may be impossible, so do not count on abs[4] being
        // the largest term
        const R v = abs[1];
        q.size[1] = v;
        q.size[2] = abs[2] + v * v;
        q.size[3] = abs[3] + 3 * v * abs[2] + 2 * v * v * v;
        q.size[4] = abs[4] + 4 * v * abs[3] + 6 * v * v * abs[2] + 3 * v * v * v * v;
        return q;
    }
};
using QuadMoments = BasicQuadMoments<long double>;

#endif
