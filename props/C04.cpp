// C04: covariance is symmetric, bilinear, positive semidefinite.
#include "../lib/prog1.hpp"
#include "../lib/linear.hpp"
#include "../lib/eigen.hpp"


static Weights1 weights() {
    Weights1 w;
    w.inplace = 4;
    w.inplace_scalar = 1;
    w.observe = 3;
    w.change_nom = 2;
    w.max_ops = 18;
    w.max_vars = 8;
    return w;
}

template<typename Real>
static void checks(pbt::Case &c, Machine1<Real> &m) {
    using U = unc::UReal<Real>;
    using N = Num<Real>;
    using Ref = typename Num<Real>::Ref;
    using std::sqrt;
    auto &v = m.vars;
    const int n = static_cast<int>(v.size());
    // sizes: square roots of the sums of squares of the coefficients, with their errors
    std::vector<Ref> size(n);
    for (int i = 0; i < n; ++i) {
        Ref s = 0;
        for (std::size_t k = 0; k < v[i].m.c.size(); ++k) {
            if (v[i].m.support.count(static_cast<int>(k))) { const Ref t = rabs(v[i].m.c[k].v) + v[i].m.c[k].e; s += t * t; }
        }
        size[i] = sqrt(s);
    }
    std::vector<Real> V(n * n);
    const Ref eps = Num<Real>::eps(), tiny = Num<Real>::tiny();
    // below this there are subnormal numbers
    const Real small = std::numeric_limits<Real>::min() / std::numeric_limits<Real>::epsilon();
    const Ref len = 8 + static_cast<Ref>(m.probe.size());
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            V[i * n + j] = cov(v[i].u, v[j].u);
        }
    }
    for (int i = 0; i < n; ++i) {
        CHECK_THAT(c, rabs(Ref(V[i * n + i]) - Ref(var(static_cast<const U &>(v[i].u)))) <= 8 * len * eps * Ref(V[i * n + i]) + len * tiny, "cov(x, x) of v" << i << " is " << V[i * n + i] << " and var(x) is " << var(static_cast<const U &>(v[i].u)));
        CHECK_THAT(c, V[i * n + i] >= 0, "cov(x, x) is " << V[i * n + i]);
        for (int j = 0; j < i; ++j) {
            CHECK_THAT(c, rabs(Ref(V[i * n + j]) - Ref(V[j * n + i])) <= 2 * len * eps * sqrt(Ref(V[i * n + i]) * Ref(V[j * n + j])) + len * tiny,
                       "cov(v" << i << ", v" << j << ") is " << V[i * n + j] << " and cov(v" << j << ", v" << i << ") is " << V[j * n + i]);
            // correlation
            const Real si = static_cast<const U &>(v[i].u).s(), sj = static_cast<const U &>(v[j].u).s();
            if (si > 0 && sj > 0 && V[i * n + i] > small && V[j * n + j] > small) {
                const Real r = corr(v[i].u, v[j].u);
                CHECK_THAT(c, rabs(Ref(r)) <= 1 + 4 * len * eps, "corr(v" << i << ", v" << j << ") is " << r);
                CHECK_THAT(c, rabs(Ref(Ref(r) - Ref(V[i * n + j]) / (Ref(si) * Ref(sj)))) <= 16 * eps, "corr(v" << i << ", v" << j << ") is " << r << ", cov/(s s) is " << V[i * n + j] / (si * sj));
                const auto &a = v[i].m.support, &b = v[j].m.support;
                if (a.size() == 1 && a == b) {
                    c.label("two functions of one variable");
                    const int k = *a.begin();
                    const Ref ca = v[i].m.coef(k).v, cb = v[j].m.coef(k).v;
                    if (ca != 0 && cb != 0) {
                        const int sign = (ca > 0) == (cb > 0) ? 1 : -1;
                        if (rabs(ca) > 1000 * v[i].m.coef(k).e && rabs(cb) > 1000 * v[j].m.coef(k).e)
                            CHECK_THAT(c, rabs(Ref(Ref(r) - sign)) <= 16 * eps, "two functions of one variable, v" << i << " and v" << j << ", have correlation " << r);
                    }
                }
            }
        }
    }
    // exact numbers
    const Real x = static_cast<Real>(gen_double(c, 2));
    for (int i = 0; i < n; ++i) {
        CHECK_THAT(c, cov(v[i].u, U(x)) == 0 && cov(U(x), v[i].u) == 0 && cov(v[i].u, U()) == 0, "the covariance of v" << i << " with an exact number is not zero");
        CHECK_THAT(c, cov(v[i].u - v[i].u.n(), U(x) * 2) == 0, "the covariance of v" << i << " with an exact number is not zero");
    }
    // bilinearity and invariance under translations
    for (int q = 0; q < 3; ++q) {
        const int i = static_cast<int>(c.below(n)), j = static_cast<int>(c.below(n)), k = static_cast<int>(c.below(n));
        const Real a = static_cast<Real>(gen_double(c, 1)), b = static_cast<Real>(gen_double(c, 1)), t = static_cast<Real>(gen_double(c, 2));
        NOTE(c, "w = " << a << "*v" << i << " + " << b << "*v" << j << "; cov(w, v" << k << ")");
        U z;
        if (c.chance(1, 2)) z = a * v[i].u + v[j].u * b + t;
        else { z = v[i].u; z *= a; U y = v[j].u; y *= b; z += y; z -= t; }
        const Ref l = c.chance(1, 2) ? cov(z, v[k].u) : cov(v[k].u, z), A = rabs(Ref(a)), B = rabs(Ref(b));
        const Ref r = Ref(a) * Ref(V[i * n + k]) + Ref(b) * Ref(V[j * n + k]);
        const Ref tol = 16 * len * eps * (A * size[i] + B * size[j]) * size[k] + len * tiny * (1 + A + B);
        CHECK_THAT(c, rabs(Ref(l - r)) <= tol, "cov(a*x + b*y, z) is " << l << ", a*cov(x, z) + b*cov(y, z) is " << r << " (tolerance " << tol << ")");
        const U y = change_nom(v[i].u, t);
        CHECK_THAT(c, y.n() == t, "change_nom gives mean " << y.n());
        CHECK_THAT(c, cov(y, v[k].u) == V[i * n + k], "cov changes with the mean: " << cov(y, v[k].u) << ", was " << V[i * n + k]);
        CHECK_THAT(c, rabs(Ref(Ref(y.s()) - Ref(static_cast<const U &>(v[i].u).s()))) <= 4 * eps * Ref(y.s()), "s() changes with the mean");
    }
    // positive semidefiniteness, of the matrix scaled to unit diagonal
    std::vector<int> idx;
    for (int i = 0; i < n; ++i) if (V[i * n + i] > (N::eps() < Ref(1e-10) ? Real(1e-200) : small)) idx.push_back(i);
    const int k = static_cast<int>(idx.size());
    if (k > 0) {
        std::vector<long double> S(k * k);
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) {
            S[i * k + j] = static_cast<long double>(Ref(V[idx[std::max(i, j)] * n + idx[std::min(i, j)]]) / sqrt(Ref(V[idx[i] * n + idx[i]]) * Ref(V[idx[j] * n + idx[j]])));
        }
        const auto ev = jacobi_eigenvalues(S, k);
        for (auto e : ev) CHECK_THAT(c, Ref(e) >= -8 * len * k * eps, "the correlation matrix of " << k << " variables has the eigenvalue " << e);
        if (k >= 3 && m.dependent_vars() >= 2) c.nontrivial();
    }
}

template<typename Real>
static void program(pbt::Case &c, const Weights1 &w) {
    Machine1<Real> m(c, w);
    m.start();
    const int ops = 1 + m.length();
    for (int i = 0; i < ops; ++i) m.step();
    checks(c, m);
    for (std::size_t i = 0; i < m.vars.size(); ++i) for (std::size_t j = 0; j <= i; ++j) m.check_pair(static_cast<int>(i), static_cast<int>(j));
}

LAW(programs, 1000000, 4000000, "symmetry, bilinearity, exact numbers, change of mean, corr, eigenvalues of the correlation matrix of the variables left by a random program; non-trivial: three or more variables with uncertainty, two or more of them dependent") {
    program<double>(c, weights());
}
LAW(wide, 125000, 500000, "the same with many independent variables") {
    Weights1 w = weights();
    w.many = true;
    w.max_ops = 30;
    w.max_vars = 12;
    w.nary = 5;
    Machine1<double> m(c, w);
    m.start();
    const int ops = 1 + m.length();
    for (int i = 0; i < ops; ++i) m.step();
    if (m.vars.size() > 20) { m.vars.erase(m.vars.begin(), m.vars.end() - 20); }
    checks(c, m);
}

LAW(types, 300000, 1200000, "the first with float and long double") {
    if (c.chance(1, 2)) program<float>(c, weights()); else program<long double>(c, weights());
}

LAW(many, 60000, 800000, "linear combinations of up to 96 (rarely 1000) independent variables over random subsets, and operations on them: covariances in both orders against the direct sum, bilinearity, correlations; non-trivial: two functions of ten or more variables with one in common") {
    using Ref = long double;
    using U = unc::udouble;
    linear::Setup<U> m;
    m.generate(c, linear::number(c, 200, 1000));
    auto &v = m.v;
    const int n = static_cast<int>(v.size());
    std::vector<Ref> V(n * n), mag(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V[i * n + j] = m.covariance(v[i], v[j], &mag[i * n + j]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const Ref got = cov(v[i].u, v[j].u), e = V[i * n + j];
        CHECK_THAT(c, std::fabs(got - e) <= m.rel() * mag[i * n + j], "cov(v" << i << ", v" << j << ") is " << got << ", expected " << e << " (functions of " << v[i].size << " and " << v[j].size << " variables)");
        if (V[i * n + i] > 0 && V[j * n + j] > 0) {
            const Ref r = corr(v[i].u, v[j].u), want = e / std::sqrt(V[i * n + i] * V[j * n + j]);
            CHECK_THAT(c, std::fabs(r - want) <= 4 * m.rel(), "corr(v" << i << ", v" << j << ") is " << r << ", expected " << want);
        }
        if (i < j && v[i].size >= 10 && v[j].size >= 10 && m.common(v[i], v[j])) c.nontrivial();
    }
    for (int q = 0; q < 3; ++q) {
        const int i = c.range(0, n - 1), j = c.range(0, n - 1), k = c.range(0, n - 1);
        const double a = c.range(-8, 8) * 0.5, b = c.range(-8, 8) * 0.5;
        NOTE(c, "cov(" << a << " v" << i << " + " << b << " v" << j << ", v" << k << ")");
        const U w = a * v[i].u + v[j].u * b;
        const Ref e = a * V[i * n + k] + b * V[j * n + k], tol = m.rel() * (std::fabs(a) * mag[i * n + k] + std::fabs(b) * mag[j * n + k]);
        const Ref l = cov(w, v[k].u), r = cov(v[k].u, w);
        CHECK_THAT(c, std::fabs(l - e) <= tol && std::fabs(r - e) <= tol, "cov(" << a << " v" << i << " + " << b << " v" << j << ", v" << k << ") is " << l << ", in the other order " << r << ", expected " << e);
    }
}
