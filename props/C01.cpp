// C01: first order propagation of arbitrary expressions.
#include "../lib/prog1.hpp"
#include "../lib/linear.hpp"

template<typename Real = double>
static void run(pbt::Case &c, const Weights1 &w) {
    Machine1<Real> m(c, w);
    m.start();
    const int ops = m.length();
    for (int i = 0; i < ops; ++i) {
        if (m.step() && m.touched >= 0) m.check_all(m.touched);
    }
    // the whole state at the end: also the variables which were not touched
    for (std::size_t i = 0; i < m.vars.size() && i < 12; ++i) {
        m.check_all(static_cast<int>(i));
        for (std::size_t j = 0; j <= i; ++j) m.check_pair(static_cast<int>(i), static_cast<int>(j));
    }
    if (m.binary_ops >= 2 && m.dependent_vars() >= 1) c.nontrivial();
    if (m.dependent_vars() >= 2) c.label("two or more dependent variables at the end");
}

LAW(programs, 1500000, 6000000, "random program of out-of-place operations; means, standard deviations, variances and all covariances against the reference model after each step; non-trivial: at least two binary operations and a variable depending on two or more independent ones") {
    Weights1 w;
    run(c, w);
}

LAW(wide, 300000, 1200000, "the same with up to 64 independent variables and longer programs") {
    Weights1 w;
    w.many = true;
    w.max_ops = 40;
    w.max_vars = 10;
    w.nary = 4;
    run(c, w);
}

LAW(types, 300000, 1200000, "the same with float and long double") {
    Weights1 w;
    w.many = c.chance(1, 10);
    if (c.chance(1, 2)) run<float>(c, w); else run<long double>(c, w);
}

// Variables that depend on few and many of a common set of independent
// variables, overlapping in any way; the covariances are computed directly.
LAW(subsets, 500000, 2000000, "linear combinations of up to 96 (rarely 1500) independent variables over random subsets of very different sizes, and operations on them; standard deviations and all covariances against the direct sum; non-trivial: two of them with a common variable, one depending on five times as many as the other") {
    using Ref = long double;
    linear::Setup<unc::udouble> m;
    m.generate(c, linear::number(c, 500, 1500));
    const auto &v = m.v;
    for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) {
        Ref mag;
        const Ref e = m.covariance(v[i], v[j], &mag), tol = mag * m.rel();
        const double got = cov(v[i].u, v[j].u);
        CHECK_THAT(c, std::fabs(got - e) <= tol, "cov(v" << i << ", v" << j << ") is " << got << ", expected " << static_cast<double>(e) << " (they depend on " << v[i].size << " and " << v[j].size << " variables)");
        if (i == j) {
            CHECK_THAT(c, std::fabs(var(v[i].u) - e) <= tol, "the variance of v" << i << " is " << var(v[i].u) << ", expected " << static_cast<double>(e));
            const Ref d = std::sqrt(e);
            CHECK_THAT(c, std::fabs(v[i].u.s() - d) <= d * m.rel(), "the standard deviation of v" << i << " is " << v[i].u.s() << ", expected " << static_cast<double>(d));
        }
        if (i != j && v[i].size >= 5 * v[j].size && m.common(v[i], v[j])) c.nontrivial();
    }
}
