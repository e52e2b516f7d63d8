// wide.hpp -- results depending on many variables, with integer derivatives
// and standard deviations powers of two, so that there are no rounding errors.
#ifndef WIDE_HPP
#define WIDE_HPP

#include "gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <map>
#include <utility>
#include <vector>

namespace wide {
namespace unc = uncertainties;

// A quadratic polynomial of the independent variables around their means, or
// the expansion of a function of it.
struct Quad {
    double v = 0;
    std::vector<double> g;
    std::map<std::pair<int, int>, double> h;   // first <= second
    double hess(int i, int j) const {
        const auto it = h.find(i < j ? std::make_pair(i, j) : std::make_pair(j, i));
        return it == h.end() ? 0 : it->second;
    }
};

inline void add(Quad &r, int i, int j, double x) {
    if (x != 0) r.h[i < j ? std::make_pair(i, j) : std::make_pair(j, i)] += x;
}
inline Quad compose(const Quad &x, double f, double d, double dd) {
    Quad r;
    const int n = static_cast<int>(x.g.size());
    r.v = f;
    r.g.resize(n);
    for (int i = 0; i < n; ++i) r.g[i] = d * x.g[i];
    for (auto &t : x.h) add(r, t.first.first, t.first.second, d * t.second);
    if (dd != 0) for (int i = 0; i < n; ++i) if (x.g[i] != 0) for (int j = i; j < n; ++j) add(r, i, j, dd * x.g[i] * x.g[j]);
    return r;
}
inline Quad compose(const Quad &x, const Quad &y, double f, double dx, double dy, double dxx, double dyy, double dxy) {
    Quad r;
    const int n = static_cast<int>(x.g.size());
    r.v = f;
    r.g.resize(n);
    for (int i = 0; i < n; ++i) r.g[i] = dx * x.g[i] + dy * y.g[i];
    for (auto &t : x.h) add(r, t.first.first, t.first.second, dx * t.second);
    for (auto &t : y.h) add(r, t.first.first, t.first.second, dy * t.second);
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j)
        add(r, i, j, dxx * x.g[i] * x.g[j] + dyy * y.g[i] * y.g[j] + dxy * (x.g[i] * y.g[j] + x.g[j] * y.g[i]));
    return r;
}

struct Var { Quad q; std::vector<int> terms; };

// Some of the indices from 0 to n - 1, few or many of them.
inline std::vector<int> subset(pbt::Case &c, int n) {
    std::vector<int> r;
    switch (c.weighted({4, 3, 3, 2, 2})) {
    case 0: { const int num = c.pick({1, 2, 4, 8, 12, 16}); for (int i = 0; i < n; ++i) if (c.below(16) < static_cast<std::uint64_t>(num)) r.push_back(i); break; }
    case 1: { const int a = c.range(0, n - 1), b = c.range(a, n - 1); for (int i = a; i <= b; ++i) r.push_back(i); break; }
    case 2: { const int a = c.range(0, n - 1); r.push_back(a); break; }
    case 3: { const int a = c.range(0, n - 1); for (int i = 0; i < n; ++i) if (i != a) r.push_back(i); break; }
    default: { const int step = c.range(2, 5), a = c.range(0, step - 1); for (int i = a; i < n; i += step) r.push_back(i); }
    }
    return r;
}

// Makes variables U(mean, sd) and functions of many of them, of first order
// only if not `second`; r[0..n-1] are the independent variables.
template<typename U, bool second>
struct Setup {
    std::vector<U> u;
    std::vector<Quad> q;
    int n = 0;

    U un(const U &x, double f, double d, double dd, std::true_type) { return unary(x, f, d, dd); }
    U un(const U &x, double f, double d, double, std::false_type) { return unary(x, f, d); }
    U bi(const U &x, const U &y, double f, const double *d, std::true_type) { return binary(x, y, f, d[0], d[1], d[2], d[3], d[4]); }
    U bi(const U &x, const U &y, double f, const double *d, std::false_type) { return binary(x, y, f, d[0], d[1]); }

    template<typename Make>
    void generate(pbt::Case &c, int max, Make make) {
        const std::integral_constant<bool, second> order {};
        n = c.chance(1, 2) ? c.range(2, 8) : c.range(2, max);
        for (int i = 0; i < n; ++i) {
            const double m = c.range(-3, 3), s = c.pick({1, 2, 4});
            u.push_back(make(i, m, s));
            Quad x;
            x.v = m;
            x.g.assign(n, 0);
            x.g[i] = 1;
            q.push_back(x);
            NOTE(c, "x" << i << " has mean " << m << ", deviation " << s);
        }
        const int sums = c.range(1, 3);
        for (int k = 0; k < sums; ++k) {
            const std::vector<int> lin = subset(c, n);
            U r = 0;
            Quad e;
            e.g.assign(n, 0);
            std::vector<std::pair<int, int>> t;
            for (int i : lin) t.push_back({i, -1});
            if (second && c.chance(3, 4)) {
                const std::vector<int> a = subset(c, n), b = subset(c, n);
                const int keep = c.pick({1, 4, 16});
                std::size_t most = 6 * n;
                for (int i : a) for (int j : b) if (t.size() < most && c.below(16) < static_cast<std::uint64_t>(keep)) t.push_back({i, j});
            }
            if (c.chance(1, 2)) for (int i = static_cast<int>(t.size()) - 1; i > 0; --i) std::swap(t[i], t[c.below(i + 1)]);
            std::string text;
            std::vector<U> tree;
            for (auto &p : t) {
                const int i = p.first, j = p.second;
                double a = c.range(-4, 4);
                if (a == 0 && !c.chance(1, 6)) a = 1;
                if (c.verbose) text += " + " + std::to_string(a) + " x" + std::to_string(i) + (j < 0 ? "" : " x" + std::to_string(j));
                // one after the other would take too long
                if (n > 50) {
                    const U x = j < 0 ? u[i] * U(a) : u[i] * u[j] * U(a);
                    tree.push_back(x);
                }
                if (j < 0) { if (n <= 50) r = r + u[i] * U(a); e.v += a * q[i].v; e.g[i] += a; }
                else {
                    if (n <= 50) r = r + u[i] * u[j] * U(a);
                    e.v += a * q[i].v * q[j].v;
                    e.g[i] += a * q[j].v;
                    e.g[j] += a * q[i].v;
                    add(e, i, j, i == j ? 2 * a : a);
                }
            }
            while (tree.size() > 1) {
                std::vector<U> half;
                for (std::size_t i = 0; i + 1 < tree.size(); i += 2) half.push_back(tree[i] + tree[i + 1]);
                if (tree.size() % 2) half.push_back(tree.back());
                tree.swap(half);
            }
            if (!tree.empty()) r = tree[0];
            u.push_back(r);
            q.push_back(e);
            NOTE(c, "r" << u.size() - 1 << " =" << text);
        }
        const int more = c.range(0, 3);
        for (int k = 0; k < more; ++k) {
            const std::size_t a = c.chance(3, 4) ? n + c.below(u.size() - n) : c.below(u.size());
            const std::size_t b = c.chance(3, 4) ? n + c.below(u.size() - n) : c.below(u.size());
            double d[5];
            for (double &x : d) x = c.chance(1, 3) ? 0 : c.range(-3, 3);
            const double f = c.range(-5, 5);
            if (c.chance(1, 3)) {
                u.push_back(un(u[a], f, d[0], d[2], order));
                q.push_back(compose(q[a], f, d[0], d[2]));
                NOTE(c, "r" << u.size() - 1 << " = unary(r" << a << ", " << f << ", " << d[0] << ", " << d[2] << ")");
            } else {
                u.push_back(bi(u[a], u[b], f, d, order));
                q.push_back(compose(q[a], q[b], f, d[0], d[1], d[2], d[3], d[4]));
                NOTE(c, "r" << u.size() - 1 << " = binary(r" << a << ", r" << b << ", " << f << ", " << d[0] << ", " << d[1] << ", " << d[2] << ", " << d[3] << ", " << d[4] << ")");
            }
        }
        if (n > 8) c.label("more than 8 variables");
        if (n > 30) c.label("more than 30 variables");
        if (n > 64) c.label("more than 64 variables");
    }

    void check_values(pbt::Case &c) {
        for (std::size_t k = n; k < u.size(); ++k) for (int i = 0; i < n; ++i) {
            const double g = u[k].grad(u[i]);
            CHECK_THAT(c, g == q[k].g[i], "the derivative of r" << k << " with respect to x" << i << " is " << g << ", expected " << q[k].g[i]);
        }
    }
    void check_hess(pbt::Case &c) {
        for (std::size_t k = n; k < u.size(); ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            const double h = u[k].hess(u[i], u[j]);
            CHECK_THAT(c, h == q[k].hess(i, j), "the second derivative of r" << k << " with respect to x" << i << ", x" << j << " is " << h << ", expected " << q[k].hess(i, j));
        }
    }
};
}

#endif
