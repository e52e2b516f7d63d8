// discrete.hpp -- random discrete distributions, and exact expected values of
// functions of independent variables distributed so, by enumeration.
#ifndef DISCRETE_HPP
#define DISCRETE_HPP

#include "gen.hpp"
#include <array>
#include <vector>

struct Discrete {
    using Ref = long double;
    std::vector<Ref> z, p;      // standardized values (mean 0, variance 1), probabilities
    std::array<double, 6> mom;  // standardized moments from third to eighth

    Ref moment(int n) const {
        Ref m = 0;
        for (std::size_t k = 0; k < z.size(); ++k) {
            Ref t = p[k];
            for (int q = 0; q < n; ++q) t *= z[k];
            m += t;
        }
        return m;
    }

    static Discrete make(const std::vector<Ref> &a, const std::vector<Ref> &w) {
        Discrete d;
        Ref tot = 0, mu = 0, var = 0;
        for (Ref x : w) tot += x;
        for (std::size_t k = 0; k < a.size(); ++k) mu += a[k] * w[k] / tot;
        for (std::size_t k = 0; k < a.size(); ++k) var += (a[k] - mu) * (a[k] - mu) * w[k] / tot;
        const Ref s = std::sqrt(var);
        for (std::size_t k = 0; k < a.size(); ++k) {
            d.z.push_back((a[k] - mu) / s);
            d.p.push_back(w[k] / tot);
        }
        for (int n = 3; n <= 8; ++n) d.mom[n - 3] = static_cast<double>(d.moment(n));
        return d;
    }

    // 2 to `max` atoms, distinct, asymmetric in general
    static Discrete random(pbt::Case &c, int max) {
        const int n = 2 + static_cast<int>(c.below(max - 1));
        std::vector<Ref> a, w;
        Ref x = 0;
        for (int k = 0; k < n; ++k) {
            a.push_back(x);
            w.push_back(1 + c.range(0, 9));
            x += 1 + c.range(0, 5) + (c.chance(1, 3) ? c.range(0, 7) / 8.0L : 0);
        }
        return make(a, w);
    }
};

// A quadratic form y = sum g_i z_i + sum_ij H_ij z_i z_j, with errors of the
// coefficients, evaluated on every outcome.
struct Quadratic {
    using Ref = long double;
    int n = 0;
    std::vector<Ref> g, ge, H, He;   // H is n x n
    explicit Quadratic(int nn): n(nn), g(nn), ge(nn), H(nn * nn), He(nn * nn) {}
    Ref value(const std::vector<Ref> &z) const {
        Ref y = 0;
        for (int i = 0; i < n; ++i) {
            y += g[i] * z[i];
            for (int j = 0; j < n; ++j) y += H[i * n + j] * z[i] * z[j];
        }
        return y;
    }
    Ref size(const std::vector<Ref> &z) const {
        Ref y = 0;
        for (int i = 0; i < n; ++i) {
            y += std::fabs(g[i] * z[i]);
            for (int j = 0; j < n; ++j) y += std::fabs(H[i * n + j] * z[i] * z[j]);
        }
        return y;
    }
    Ref err(const std::vector<Ref> &z) const {
        Ref y = 0;
        for (int i = 0; i < n; ++i) {
            y += ge[i] * std::fabs(z[i]);
            for (int j = 0; j < n; ++j) y += He[i * n + j] * std::fabs(z[i] * z[j]);
        }
        return y;
    }
};

// calls f(z, probability) for each outcome
template<typename F>
void enumerate(const std::vector<Discrete> &d, F f) {
    const std::size_t n = d.size();
    std::vector<std::size_t> k(n, 0);
    std::vector<long double> z(n);
    for (;;) {
        long double p = 1;
        for (std::size_t i = 0; i < n; ++i) {
            z[i] = d[i].z[k[i]];
            p *= d[i].p[k[i]];
        }
        f(z, p);
        std::size_t i = 0;
        for (; i < n; ++i) {
            if (++k[i] < d[i].z.size()) break;
            k[i] = 0;
        }
        if (i == n) return;
    }
}

#endif
