// C09: chain rule at second order for any program.
#include "../lib/prog2.hpp"
#include "../lib/wide.hpp"

using Ref = long double;

template<typename U>
static void check(pbt::Case &c, const Program<Ref> &p, const std::vector<U> &v, std::size_t k) {
    const auto &m = p.model[k];
    const int n = m.n;
    const U &x = v[k];
    CHECK_THAT(c, near<Ref>(x.first_order_n(), m.v), "first_order_n() of v" << k << " is " << x.first_order_n() << ", expected " << m.v.v << " +- " << m.v.e);
    for (int i = 0; i < n; ++i) {
        const Ref g = x.grad(v[i]);
        CHECK_THAT(c, near<Ref>(g, m.g[i]), "the derivative of v" << k << " with respect to v" << i << " is " << g << ", expected " << m.g[i].v << " +- " << m.g[i].e);
        for (int j = 0; j < n; ++j) {
            const Ref h = x.hess(v[i], v[j]);
            CHECK_THAT(c, near<Ref>(h, m.hess(i, j)), "the second derivative of v" << k << " with respect to v" << i << ", v" << j << " is " << h
                       << ", expected " << m.hess(i, j).v << " +- " << m.hess(i, j).e);
        }
    }
}

template<typename U>
static void run(pbt::Case &c, const Weights2 &w) {
    // long double is compared to the precision of double
    const bool single = std::is_same<typename U::real_type, float>::value;
    ErrEnv<Ref>::eps = single ? Num<float>::eps() : Num<double>::eps();
    ErrEnv<Ref>::tiny = single ? Num<float>::tiny() : Num<double>::tiny();
    Program<Ref> p;
    p.generate(c, w);
    MakeU<U> make;
    for (std::size_t i = 0; i < p.ind.size(); ++i) make.kind.push_back(c.range(0, 3));
    const std::vector<U> v = exec<U>(p, make);
    bool nt = false;
    for (std::size_t k = 0; k < v.size(); ++k) {
        check(c, p, v, k);
        const auto &m = p.model[k];
        if (k >= p.ind.size() && m.support() > 1 && m.has_hess()) nt = true;
        if (m.has_offdiag()) c.label("nonzero mixed derivative");
        if (m.support() > 1 && !m.has_hess() && k >= p.ind.size()) c.label("null hessian");
        if (m.nonzero() < m.support()) c.label("null derivative");
    }
    if (nt) c.nontrivial();
}

LAW(programs_est, 300000, 1500000, "random program; mean, all first and all second derivatives of each intermediate result against forward automatic differentiation in extended precision (mode est); non-trivial: a result depending on two or more variables with non-null hessian") {
    Weights2 w;
    run<unc::udouble2e>(c, w);
}
LAW(programs_mean, 300000, 1500000, "the same with mode mean, more operations and more variables") {
    Weights2 w;
    w.max_ops = 16;
    w.max_ind = 8;
    run<unc::udouble2m>(c, w);
}
LAW(types, 100000, 600000, "the same with float and long double and both modes") {
    Weights2 w;
    switch (c.range(0, 3)) {
    case 0: run<unc::UReal2<float, unc::Prop::est>>(c, w); break;
    case 1: run<unc::UReal2<float, unc::Prop::mean>>(c, w); break;
    case 2: run<unc::UReal2<long double, unc::Prop::est>>(c, w); break;
    default: run<unc::UReal2<long double, unc::Prop::mean>>(c, w); break;
    }
}
LAW(custom, 300000, 1500000, "programs made only of custom unary and binary functions with arbitrary (often null) derivatives, so that every combination of null and non-null terms meets") {
    Weights2 w;
    w.arith = 2; w.scalar = 0; w.fun = 0; w.fun2 = 0; w.custom = 10; w.constant = 1; w.copy = 0; w.neg = 0;
    w.max_ops = 6;
    w.bound = 1e8;
    if (c.chance(1, 2)) run<unc::udouble2e>(c, w); else run<unc::udouble2m>(c, w);
}

template<typename U>
static void many(pbt::Case &c, int max) {
    wide::Setup<U, true> s;
    MakeU<U> make;
    make.kind.push_back(0);
    s.generate(c, max, [&](int, double m, double sd) { return make(0, Ind {m, sd}); });
    for (std::size_t k = s.n; k < s.u.size(); ++k) {
        CHECK_THAT(c, s.u[k].first_order_n() == s.q[k].v, "first_order_n() of r" << k << " is " << s.u[k].first_order_n() << ", expected " << s.q[k].v);
        if (s.q[k].h.size() >= 10) c.nontrivial();
    }
    s.check_values(c);
    s.check_hess(c);
}
LAW(wide, 40000, 200000, "polynomials of up to 50 (rarely 120) variables with any pattern of products, and functions of them, all the numbers integer; all derivatives are equal; non-trivial: ten or more non-null second derivatives") {
    const int max = c.chance(1, 200) ? 120 : c.chance(1, 20) ? 50 : 16;
    if (c.chance(1, 2)) many<unc::udouble2e>(c, max); else many<unc::udouble2m>(c, max);
}
