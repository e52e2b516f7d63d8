// linear.hpp -- first order variables depending on many independent ones, in
// random subsets of very different sizes, with exactly known derivatives.
#ifndef LINEAR_HPP
#define LINEAR_HPP

#include "gen.hpp"
#include <uncertainties/ureal.hpp>
#include <set>
#include <vector>

namespace linear {
namespace unc = uncertainties;
using Ref = long double;

// v = sum of k[i] x[i], where x[i] has deviation s[i]
template<typename U>
struct Var {
    U u;
    std::vector<Ref> k;
    int size;   // number of variables it depends on
};

inline std::vector<int> subset(pbt::Case &c, int n) {
    std::vector<int> which;
    switch (c.weighted({4, 3, 3, 2, 2, 2})) {
    case 0: { const int num = c.pick({1, 2, 4, 8, 12, 15}); for (int i = 0; i < n; ++i) if (c.below(16) < static_cast<std::uint64_t>(num)) which.push_back(i); break; }
    case 1: { const int a = c.range(0, n - 1), b = c.range(a, n - 1); for (int i = a; i <= b; ++i) which.push_back(i); break; }
    case 2: { const int num = c.range(1, 3); std::set<int> w; for (int i = 0; i < num; ++i) w.insert(c.range(0, n - 1)); which.assign(w.begin(), w.end()); break; }
    case 3: { const int a = c.range(0, n - 1); for (int i = 0; i < n; ++i) if (i != a) which.push_back(i); break; }
    case 4: { const int step = c.range(2, 5), a = c.range(0, step - 1); for (int i = a; i < n; i += step) which.push_back(i); break; }
    default: for (int i = 0; i < n; ++i) which.push_back(i);
    }
    return which;
}

template<typename U>
struct Setup {
    using Real = typename U::real_type;
    int n = 0;
    std::vector<U> x;       // the independent variables
    std::vector<Ref> s;     // their deviations
    std::vector<Var<U>> v;  // functions of them, then three of them

    void generate(pbt::Case &c, int max_n) {
        n = max_n;
        for (int i = 0; i < n; ++i) {
            const double sd = c.range(1, 64) * 0.0625, m = c.range(-8, 8) * 0.5;
            s.push_back(sd);
            x.push_back(U(Real(m), Real(sd)));
            NOTE(c, "x" << i << " has mean " << m << ", deviation " << sd);
        }
        const int m = c.range(2, 5);
        int how = c.range(0, 3);
        if (n > 400 && how == 2) how = 1; // quadratic
        for (int q = 0; q < m; ++q) {
            const std::vector<int> which = subset(c, n);
            Var<U> r {U(Real(0)), std::vector<Ref>(n, 0), static_cast<int>(which.size())};
            std::vector<Real> a;
            for (int i : which) {
                double k = c.range(-16, 16) * 0.25;
                if (k == 0 && !c.chance(1, 8)) k = 1;
                a.push_back(Real(k));
                r.k[i] = k;
            }
            // the order of the operations does not matter
            std::vector<int> order;
            for (int i = 0; i < r.size; ++i) order.push_back(i);
            if (c.chance(1, 2)) for (int i = r.size - 1; i > 0; --i) std::swap(order[i], order[c.below(i + 1)]);
            if (how == 0) {
                std::vector<U> xs;
                for (int i : order) xs.push_back(x[which[i]]);
                std::vector<Real> as;
                for (int i : order) as.push_back(a[i]);
                r.u = nary(xs.begin(), xs.end(), Real(1), as.begin());
            } else if (how == 1) {
                for (int i : order) r.u += a[i] * x[which[i]];
            } else if (how == 2) {
                for (int i : order) r.u = r.u - (-a[i]) * x[which[i]];
            } else {
                // halves
                std::vector<U> t;
                for (int i : order) t.push_back(x[which[i]] * a[i]);
                while (t.size() > 1) {
                    std::vector<U> h;
                    for (std::size_t i = 0; i + 1 < t.size(); i += 2) h.push_back(t[i] + t[i + 1]);
                    if (t.size() % 2) h.push_back(t.back());
                    t = h;
                }
                if (!t.empty()) r.u = t[0];
            }
            if (c.verbose) { NOTE(c, "v" << q << ", way " << how << ":"); for (int i : order) NOTE(c, "  " << a[i] << " x" << which[i]); }
            // operations on what depends on many variables
            for (int more = c.range(0, 2); more > 0; --more) {
                // so that there are no rounding errors in single precision too
                const bool single = std::numeric_limits<Real>::digits < 40;
                const double f = c.pick({-1.0, 2.0, single ? 4.0 : -0.5, 3.0, -4.0, 1.0});
                double g = 0;
                const int op = c.range(0, single ? 5 : 7), other = v.empty() ? -1 : c.range(0, static_cast<int>(v.size()) - 1);
                NOTE(c, "v" << q << ": operation " << op << " with " << f << (op >= 6 ? ", v" + std::to_string(other) : ""));
                switch (op) {
                case 0: r.u = -r.u; g = -1; break;
                case 1: r.u = unary(r.u, Real(5), Real(f)); g = f; break;
                case 2: r.u = Real(f) * r.u; g = f; break;
                case 3: r.u *= Real(f); g = f; break;
                case 4: r.u = change_nom(r.u, Real(-2)); g = 1; break;
                case 5: (void)r.u.s(); g = 1; break;
                case 6: case 7:
                    g = 1;
                    if (other < 0) break;
                    if (op == 6) r.u = binary(r.u, v[other].u, Real(3), Real(1), Real(f)); else r.u.binary_assign(v[other].u, Real(3), Real(1), Real(f));
                    for (int i = 0; i < n; ++i) r.k[i] += f * v[other].k[i];
                }
                if (g != 1) for (auto &k : r.k) k *= g;
            }
            r.size = 0;
            for (auto &k : r.k) r.size += k != 0;
            v.push_back(r);
        }
        // single variables too
        for (int q = 0; q < 3; ++q) { const int i = c.range(0, n - 1); Var<U> r {x[i], std::vector<Ref>(n, 0), 1}; r.k[i] = 1; v.push_back(r); }
    }

    // the covariance, with the sum of the magnitudes of the terms
    Ref covariance(const Var<U> &a, const Var<U> &b, Ref *mag) const {
        Ref e = 0;
        *mag = 0;
        for (int i = 0; i < n; ++i) { const Ref t = a.k[i] * b.k[i] * s[i] * s[i]; e += t; *mag += std::fabs(t); }
        return e;
    }
    // relative to the magnitude
    Ref rel() const { return 2 * (n + 8) * Ref(std::numeric_limits<Real>::epsilon()); }
    bool common(const Var<U> &a, const Var<U> &b) const {
        for (int i = 0; i < n; ++i) if (a.k[i] != 0 && b.k[i] != 0) return true;
        return false;
    }
};

// mostly tens, rarely many hundreds of variables
inline int number(pbt::Case &c, int rarely, int huge) {
    if (c.chance(1, rarely)) { c.label("more than 96 independent variables"); return c.range(97, huge); }
    return c.chance(1, 4) ? c.range(40, 96) : c.chance(1, 2) ? c.range(10, 40) : c.range(2, 10);
}
}

#endif
