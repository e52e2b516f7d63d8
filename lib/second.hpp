// second.hpp -- second order variables with discrete distributions, and the
// exact moments of their quadratic expansions.
#ifndef SECOND_HPP
#define SECOND_HPP

#include "discrete.hpp"
#include "prog2.hpp"

template<typename U>
struct Setup {
    using Ref = long double;
    Program<Ref> p;
    std::vector<Discrete> dist;
    std::vector<U> v;
    Ref eps = Num<double>::eps(), tiny = Num<double>::tiny(); // of the type with the largest

    // Runs a random program on variables with random discrete distributions.
    void generate(pbt::Case &c, const Weights2 &w, int max_atoms) {
        ErrEnv<Ref>::eps = eps;
        ErrEnv<Ref>::tiny = tiny;
        p.generate(c, w);
        for (std::size_t i = 0; i < p.ind.size(); ++i) {
            dist.push_back(Discrete::random(c, max_atoms));
            if (c.verbose) {
                c.notes << "v" << i << " takes the standardized values";
                for (std::size_t k = 0; k < dist[i].z.size(); ++k) c.notes << " " << dist[i].z[k] << " (probability " << dist[i].p[k] << ")";
                c.notes << "\n";
            }
        }
        central.assign(p.ind.size(), false);
        for (std::size_t i = 0; i < p.ind.size(); ++i) central[i] = c.chance(1, 3);
        run();
    }
    std::vector<bool> central;

    template<typename V>
    V make(int i, const Ind &x) const {
        using Real = typename V::real_type;
        if (!central[i]) {
            std::array<Real, 6> m;
            for (int k = 0; k < 6; ++k) m[k] = Real(dist[i].mom[k]);
            return V(Real(x.n), Real(x.s), m, Real(-1));
        }
        std::array<Real, 7> m;
        Ref s = x.s, sn = s * s;
        m[0] = Real(sn);
        for (int k = 0; k < 6; ++k) { sn *= s; m[k + 1] = Real(dist[i].moment(k + 3) * sn); }
        return V(Real(x.n), m, Real(-1));
    }
    void run() {
        v = exec<U>(p, [this](int i, const Ind &x) { return make<U>(i, x); });
    }
    Quadratic quad(std::size_t k) const { return quad_of(p.model[k]); }
    Quadratic quad_of(const Dual<Ref> &m) const {
        Quadratic q(m.n);
        for (int i = 0; i < m.n; ++i) {
            const Ref si = p.ind[i].s;
            q.g[i] = m.g[i].v * si;
            q.ge[i] = m.g[i].e * si;
            for (int j = 0; j < m.n; ++j) {
                const Ref sj = p.ind[j].s;
                q.H[i * m.n + j] = m.hess(i, j).v * si * sj / 2;
                q.He[i * m.n + j] = m.hess(i, j).e * si * sj / 2;
            }
        }
        return q;
    }
};

// first moment, and central moments from the second to the fourth; err: how
// far the result of a direct computation in the type under test may be
struct Moments4 {
    long double m[5], e[5];
};
inline Moments4 moments_of(const std::vector<Discrete> &d, const Quadratic &q, long double eps) {
    using Ref = long double;
    Moments4 r {};
    std::vector<Ref> val, prob;
    Ref A[5] = {0, 0, 0, 0, 0}, dA[5] = {0, 0, 0, 0, 0};
    enumerate(d, [&](const std::vector<Ref> &z, Ref p) {
        const Ref y = q.value(z), a = q.size(z), e = q.err(z);
        val.push_back(y);
        prob.push_back(p);
        r.m[1] += p * y;
        Ref an = p, bn = p;
        for (int n = 1; n <= 4; ++n) {
            an *= a;
            bn *= a + e;
            A[n] += an;
            dA[n] += bn - an;
        }
    });
    for (std::size_t k = 0; k < val.size(); ++k) {
        const Ref t = val[k] - r.m[1];
        r.m[2] += prob[k] * t * t;
        r.m[3] += prob[k] * t * t * t;
        r.m[4] += prob[k] * t * t * t * t;
    }
    // Each term of the formulas is bounded by A[n], and so is each product of
    // lower moments subtracted to center; the terms come with relative errors
    // of a few eps each and the formulas sum up to hundreds of them.
    static const Ref pow2[] = {1, 2, 4, 8, 16};
    for (int n = 1; n <= 4; ++n) r.e[n] = pow2[n] * (dA[n] + 400 * eps * A[n]);
    return r;
}

// Sums of quadratic forms in disjoint, interleaved groups of variables: the
// cumulants, and the covariances of two such sums, add up.
template<typename U>
struct Groups {
    using Ref = long double;
    static constexpr Ref eps = 2.3e-16L;
    int n;
    std::vector<Discrete> dist;
    std::vector<double> sd;
    std::vector<U> x;
    std::vector<std::vector<int>> group;

    void generate(pbt::Case &c, int max_groups, int max_size, int atoms) {
        const int g = c.range(2, max_groups);
        std::vector<int> of;
        for (int k = 0; k < g; ++k) for (int i = c.range(1, max_size); i > 0; --i) of.push_back(k);
        n = static_cast<int>(of.size());
        for (int i = n - 1; i > 0; --i) std::swap(of[i], of[c.below(i + 1)]);
        group.resize(g);
        for (int i = 0; i < n; ++i) {
            group[of[i]].push_back(i);
            dist.push_back(Discrete::random(c, atoms));
            sd.push_back(c.chance(1, 2) ? 1.0 : gen_uniform(c, 0.25, 3));
            x.push_back(U(0, sd[i], dist[i].mom, -1));
            if (c.verbose) {
                c.notes << "x" << i << ": standard deviation " << sd[i] << ", standardized values";
                for (std::size_t k = 0; k < dist[i].z.size(); ++k) c.notes << " " << dist[i].z[k] << " (probability " << dist[i].p[k] << ")";
                c.notes << "\n";
            }
        }
    }
    struct Form { std::vector<U> part; std::vector<Quadratic> q; std::vector<bool> has; int mixed = 0; U sum; };
    std::vector<Discrete> dist_of(int k) const { std::vector<Discrete> d; for (int i : group[k]) d.push_back(dist[i]); return d; }

    // a form per group, some of them missing; summed in random order
    Form form(pbt::Case &c, const char *name) {
        Form f;
        const int g = static_cast<int>(group.size());
        std::vector<U> use;
        for (int k = 0; k < g; ++k) {
            const int m = static_cast<int>(group[k].size());
            Quadratic q(m);
            U y(0);
            std::ostringstream ss;
            const bool has = !c.chance(1, 4);
            if (has) {
                const int sparse = c.range(0, 2);
                auto coef = [&]() { return c.chance(sparse, 4) ? 0.0 : c.chance(1, 2) ? double(c.range(-3, 3)) : gen_double(c, 0); };
                for (int a = 0; a < m; ++a) {
                    const int i = group[k][a];
                    const double v = coef();
                    if (v == 0) continue;
                    y = y + v * x[i];
                    ss << " + " << v << "*x" << i;
                    q.g[a] = Ref(v) * sd[i];
                    q.ge[a] = 8 * eps * std::fabs(q.g[a]);
                }
                for (int a = 0; a < m; ++a) for (int b = a; b < m; ++b) {
                    const int i = group[k][a], j = group[k][b];
                    const double v = coef();
                    if (v == 0) continue;
                    if (a != b) ++f.mixed;
                    y = y + v * (x[i] * x[j]);
                    ss << " + " << v << "*x" << i << "*x" << j;
                    const Ref t = Ref(v) * sd[i] * sd[j];
                    if (a == b) q.H[a * m + a] += t;
                    else { q.H[a * m + b] += t / 2; q.H[b * m + a] += t / 2; }
                    q.He[a * m + b] += 8 * eps * std::fabs(t);
                }
                use.push_back(y);
            }
            NOTE(c, name << " on the variables of group " << k << ":" << ss.str());
            f.part.push_back(y);
            f.q.push_back(q);
            f.has.push_back(has);
        }
        if (c.chance(1, 2)) for (int i = static_cast<int>(use.size()) - 1; i > 0; --i) std::swap(use[i], use[c.below(i + 1)]);
        f.sum = U(0);
        for (auto &u : use) f.sum = c.chance(1, 2) ? f.sum + u : u + f.sum;
        return f;
    }
};

#endif
