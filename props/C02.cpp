// C02: in-place operators are equivalent to the out-of-place ones.
#include "../lib/prog1.hpp"

static Weights1 weights() {
    Weights1 w;
    w.inplace = 16;
    w.inplace_scalar = 4;
    w.custom = 5;
    w.observe = 5;
    w.change_nom = 1;
    w.binary = 8;
    w.copy = 3;
    return w;
}

template<typename Real = double>
static void run(pbt::Case &c, const Weights1 &w) {
    Machine1<Real> m(c, w);
    m.start();
    const int ops = m.length();
    for (int i = 0; i < ops; ++i) {
        if (!m.step() || m.touched < 0) continue;
        m.check_all(m.touched);
        // nothing else changed
        for (std::size_t k = 0; k < m.vars.size() && k < 8; ++k) {
            if (static_cast<int>(k) == m.touched) continue;
            m.check_mean(static_cast<int>(k));
            m.check_sdev(static_cast<int>(k));
            m.check_pair(static_cast<int>(k), m.touched);
        }
    }
    for (std::size_t i = 0; i < m.vars.size() && i < 12; ++i) {
        m.check_all(static_cast<int>(i));
        for (std::size_t j = 0; j <= i; ++j) m.check_pair(static_cast<int>(i), static_cast<int>(j));
    }
    if (m.inplace_ops >= 2 && m.dependent_vars() >= 1) c.nontrivial();
}

LAW(programs, 1000000, 4000000, "random program with in-place operators and binary_assign mixed with queries; the target as the out-of-place model, everything else unchanged; non-trivial: two or more in-place operations and a dependent variable") {
    Weights1 w = weights();
    w.max_ops = 18;
    run(c, w);
}

LAW(wide, 150000, 800000, "the same starting sometimes from up to 64 independent variables") {
    Weights1 w = weights();
    w.many = true;
    w.max_ops = 30;
    w.max_vars = 10;
    run(c, w);
}

// a op= b against a = a op b on copies, whatever the history of a and b
template<typename Real>
static void twins_of(pbt::Case &c) {
    Weights1 w = weights();
    w.max_ops = 10;
    Machine1<Real> m(c, w);
    using U = unc::UReal<Real>;
    m.start();
    const int ops = static_cast<int>(c.below(w.max_ops));
    for (int i = 0; i < ops; ++i) m.step();
    for (int round = 0; round < 3; ++round) {
        const int i = m.pick(), j = c.chance(1, 4) ? i : m.pick();
        const int k = static_cast<int>(c.below(4));
        if (!m.division_ok(k, m.vars[j].m)) continue;
        const auto model = m.model_binary(k, m.vars[i].m, m.vars[j].m);
        if (!m.acceptable(model)) continue;
        // queries change caches
        const int q = static_cast<int>(c.below(4));
        if (q & 1) (void) m.vars[i].u.s();
        if (q & 2) (void) m.vars[j].u.s();
        const U out = m.lib_binary(k, m.vars[i].u, m.vars[j].u);
        U a = m.vars[i].u;
        const U before_b = m.vars[j].u;
        U bcopy = m.vars[j].u;
        const bool self = i == j && c.chance(1, 2);
        const U &b = self ? a : bcopy;
        NOTE(c, "a = v" << i << "; a " << m.opname(k) << "= " << (self ? std::string("a") : "v" + std::to_string(j)));
        switch (k) {
        case 0: a += b; break;
        case 1: a -= b; break;
        case 2: a *= b; break;
        default: a /= b; break;
        }
        if (self) c.label("in-place with itself");
        m.vars.push_back({a, model});
        m.check_all(static_cast<int>(m.vars.size()) - 1);
        const int t = static_cast<int>(m.vars.size()) - 1;
        CHECK_THAT(c, a.isindep() == out.isindep(), "isindep() is " << a.isindep() << " in place and " << out.isindep() << " out of place");
        CHECK_THAT(c, a.indepid() == out.indepid(), "indepid() is " << a.indepid() << " in place and " << out.indepid() << " out of place");
        for (std::size_t z = 0; z < m.vars.size() && z < 10; ++z) m.check_pair(t, static_cast<int>(z));
        if (!self) {
            CHECK_THAT(c, bcopy.n() == before_b.n() && bcopy.s() == before_b.s() && bcopy.indepid() == before_b.indepid(), "the right operand changed");
        }
        m.check_all(i);
        m.check_all(j);
        if (m.nonzero(m.vars[i].m) > 1 || m.nonzero(m.vars[j].m) > 1) c.nontrivial();
        if (m.vars[i].m.support.empty() || m.vars[j].m.support.empty()) c.label("one operand exact");
    }
}

LAW(twins, 1000000, 4000000, "after a random history, a op= b on one copy and a op b on another: mean, variance, covariance with everything, independence and id agree; non-trivial: a or b is dependent") { twins_of<double>(c); }

LAW(types, 300000, 1200000, "the first and the third with float and long double") {
    const bool single = c.chance(1, 2);
    if (c.chance(1, 2)) {
        if (single) twins_of<float>(c); else twins_of<long double>(c);
        return;
    }
    Weights1 w = weights();
    w.max_ops = 18;
    w.many = c.chance(1, 10);
    if (single) run<float>(c, w); else run<long double>(c, w);
}

// The documented way to sum many variables, with anything else in between;
// all the numbers are small integers, so there are no rounding errors.
LAW(accumulate, 150000, 600000, "in-place additions and subtractions of up to 60 (rarely 1500) variables, dependent ones and the target itself, multiplications and queries in between, against the direct sum; non-trivial: the target depends on ten or more variables") {
    using U = unc::udouble;
    using Ref = long double;
    const bool huge = c.chance(1, 300);
    const int n = huge ? c.range(100, 1500) : c.range(2, 60);
    std::vector<U> x;
    std::vector<Ref> s;
    for (int i = 0; i < n; ++i) {
        s.push_back(c.range(1, 8));
        x.push_back(U(c.range(-4, 4), static_cast<double>(s[i])));
    }
    struct V { U u; Ref mean; std::vector<Ref> k; };
    std::vector<V> v;
    const int targets = c.range(1, 3);
    for (int q = 0; q < targets; ++q) {
        V r {U(3), 3, std::vector<Ref>(n, 0)};
        if (c.chance(1, 2)) { const int i = c.range(0, n - 1); r.u = x[i]; r.mean = x[i].n(); r.k[i] = s[i]; }
        v.push_back(r);
    }
    const auto add = [&c, n](V &t, const U &y, const Ref &mean, const std::vector<Ref> *k, int i, const Ref &si, int sign) {
        if (sign > 0) t.u += y; else t.u -= y;
        t.mean += sign * mean;
        if (k) { const std::vector<Ref> copy = *k; for (int q = 0; q < n; ++q) t.k[q] += sign * copy[q]; }
        else t.k[i] += sign * si;
    };
    const auto largest = [n](const V &t) { Ref m = rabs(t.mean); for (int q = 0; q < n; ++q) m = std::max(m, rabs(t.k[q])); return m; };
    const auto check = [&](std::size_t a) {
        const V &t = v[a];
        Ref e = 0;
        for (int q = 0; q < n; ++q) e += t.k[q] * t.k[q];
        CHECK_THAT(c, t.u.n() == t.mean, "the mean of t" << a << " is " << t.u.n() << ", expected " << static_cast<double>(t.mean));
        CHECK_THAT(c, rabs(var(t.u) - e) <= 1e-13L * e, "the variance of t" << a << " is " << var(t.u) << ", expected " << static_cast<double>(e));
        for (std::size_t b = 0; b < v.size(); ++b) {
            Ref z = 0, m = 0;
            for (int q = 0; q < n; ++q) { z += t.k[q] * v[b].k[q]; m += rabs(t.k[q] * v[b].k[q]); }
            CHECK_THAT(c, rabs(cov(t.u, v[b].u) - z) <= 1e-13L * m, "the covariance of t" << a << " and t" << b << " is " << cov(t.u, v[b].u) << ", expected " << static_cast<double>(z));
        }
        for (int r = 0; r < 4; ++r) {
            const int i = c.range(0, n - 1);
            CHECK_THAT(c, cov(t.u, x[i]) == t.k[i] * s[i], "the covariance of t" << a << " and x" << i << " is " << cov(t.u, x[i]) << ", expected " << static_cast<double>(t.k[i] * s[i]));
        }
    };
    NOTE(c, n << " variables x, " << targets << " targets t");
    const bool in_order = c.chance(1, 2);
    const int steps = huge ? n * 2 : 1 + static_cast<int>(c.below(2 * n));
    int next = 0;
    for (int q = 0; q < steps; ++q) {
        const std::size_t a = c.below(v.size());
        V &t = v[a];
        const int sign = c.chance(1, 3) ? -1 : 1;
        switch (c.weighted({20, 2, 1, 2, 2})) {
        case 0: {
            const int i = in_order ? next++ % n : c.range(0, n - 1);
            add(t, x[i], x[i].n(), nullptr, i, s[i], sign);
            NOTE(c, "t" << a << (sign > 0 ? " += x" : " -= x") << i);
            break;
        }
        case 1: {
            const std::size_t b = c.below(v.size());
            if (largest(t) > 1e5L || largest(v[b]) > 1e5L) break;
            const Ref m = v[b].mean;
            add(t, v[b].u, m, &v[b].k, 0, 0, sign);
            NOTE(c, "t" << a << (sign > 0 ? " += t" : " -= t") << b);
            break;
        }
        case 2: {
            const int k = c.range(-2, 3);
            if (largest(t) > 1e5L) break;
            t.u *= k;
            t.mean *= k;
            for (auto &z : t.k) z *= k;
            NOTE(c, "t" << a << " *= " << k);
            break;
        }
        case 3: {
            const double z = c.range(-4, 4);
            if (sign > 0) t.u += z; else t.u -= z;
            t.mean += sign * z;
            NOTE(c, "t" << a << (sign > 0 ? " += " : " -= ") << z);
            break;
        }
        default:
            if (c.chance(1, 2)) (void) t.u.s();
            if (!huge) check(a);
        }
    }
    for (std::size_t a = 0; a < v.size(); ++a) {
        check(a);
        int k = 0;
        for (auto &z : v[a].k) k += z != 0;
        if (k >= 10) c.nontrivial();
        if (k >= 100) c.label("target depending on 100 or more variables");
    }
}
