// C18: conversions between numerical types and propagation modes.
#include "../lib/second.hpp"
#include "../lib/linear.hpp"
#include "../lib/wide.hpp"

using Ref = long double;

template<typename T> static void arrow(pbt::Case &c, const char *from, const char *to) { c.label(std::string(from) + " to " + to); }

// the several ways of converting
template<typename V, typename U>
static V convert1(pbt::Case &c, const U &x) {
    switch (c.range(0, 4)) {
    case 0: { V y = x; return y; }
    case 1: { V y(x); return y; }
    case 2: { V y(7, 3); y = x; return y; }
    case 3: return static_cast<V>(x);
    default: { const U z = x; const std::vector<V> v {z}; return v[0]; }
    }
}

template<typename S, typename T>
static void first(pbt::Case &c) {
    using U = unc::UReal<S>;
    using V = unc::UReal<T>;
    const Ref eps = std::max<Ref>(std::numeric_limits<S>::epsilon(), std::numeric_limits<T>::epsilon());
    const bool widening = std::numeric_limits<T>::digits >= std::numeric_limits<S>::digits;
    ErrEnv<Ref>::eps = eps;
    ErrEnv<Ref>::tiny = Num<float>::tiny();
    arrow<T>(c, Num<S>::name(), Num<T>::name());
    Weights2 w;
    w.max_ops = 8;
    w.bound = 1e4;
    Program<Ref> p;
    p.generate(c, w);
    const auto v = exec<U>(p, MakeU<U>());
    const std::size_t n0 = p.ind.size(), n = v.size();
    // caches filled or not
    for (auto &x : v) if (c.chance(1, 2)) { U y = x; (void)y.s(); }
    std::vector<V> t;
    for (auto &x : v) {
        if (c.chance(1, 2)) { U y = x; (void)y.s(); t.push_back(convert1<V>(c, y)); }
        else t.push_back(convert1<V>(c, x));
    }
    const Ref tiny = 1e-30L, stiny = 1e-20L, under = 1e-22L; // squares of smaller deviations underflow in single precision
    for (std::size_t k = 0; k < n; ++k) {
        const U &x = v[k];
        V y = t[k];
        const std::string who = "v" + std::to_string(k);
        CHECK_THAT(c, y.n() == static_cast<T>(x.n()), "the mean of " << who << " is " << x.n() << " and becomes " << y.n());
        CHECK_THAT(c, y.isindep() == x.isindep(), who << (x.isindep() ? " is" : " is not") << " independent, the converted one" << (y.isindep() ? " is" : " is not"));
        CHECK_THAT(c, y.indepid() == x.indepid(), "the id of " << who << " is " << x.indepid() << " and becomes " << y.indepid());
        const Ref sx = x.s(), sy = y.s();
        const Ref rel = (n0 + 16) * eps;
        CHECK_THAT(c, std::fabs(sx - sy) <= rel * sx + stiny, "the deviation of " << who << " is " << sx << " and becomes " << sy);
        const V yc = y;
        CHECK_THAT(c, std::fabs(sx - yc.s()) <= rel * sx + stiny, "the deviation of a copy of " << who << " is " << sx << " and becomes " << yc.s());
        for (std::size_t i = 0; i < n0; ++i) {
            const Ref gx = x.grad(v[i]), gy = y.grad(t[i]);
            CHECK_THAT(c, std::fabs(gx - gy) <= 8 * eps * std::fabs(gx) + tiny, "the derivative of " << who << " with respect to v" << i << " is " << gx << " and becomes " << gy);
        }
        for (std::size_t j = 0; j < n; ++j) {
            const Ref cx = cov(x, v[j]), cy = cov(y, t[j]);
            CHECK_THAT(c, std::fabs(cx - cy) <= rel * (sx + under) * (v[j].s() + under) + tiny, "the covariance of " << who << ", v" << j << " is " << cx << " and becomes " << cy);
            // also with one converted back
            const U b = t[j];
            const Ref cb = cov(x, b);
            CHECK_THAT(c, std::fabs(cx - cb) <= rel * (sx + under) * (v[j].s() + under) + tiny, "the covariance of " << who << ", v" << j << " is " << cx << " and becomes " << cb << " when v" << j << " is converted back and forth");
            if (k != j && k >= n0 && j >= n0 && cx != 0) c.nontrivial();
        }
        const U back = convert1<U>(c, y);
        if (widening) {
            CHECK_THAT(c, back.n() == x.n() && back.indepid() == x.indepid() && std::fabs(Ref(back.s()) - sx) <= rel * sx + stiny && std::fabs(Ref(var(back)) - var(x)) <= 2 * rel * var(x) + tiny, who << " is not the same after widening and back: mean " << back.n() << ", deviation " << back.s() << " instead of " << x.n() << ", " << x.s());
            for (std::size_t i = 0; i < n0; ++i) {
                const Ref gx = x.grad(v[i]);
                CHECK_THAT(c, std::fabs(Ref(back.grad(v[i])) - gx) <= 8 * eps * std::fabs(gx) + tiny, "the derivative of " << who << " with respect to v" << i << " changes widening and back");
            }
            for (std::size_t j = 0; j < n; ++j) CHECK_THAT(c, std::fabs(Ref(cov(back, v[j])) - cov(x, v[j])) <= rel * (sx + under) * (v[j].s() + under) + tiny, "the covariance of " << who << ", v" << j << " changes widening and back");
        } else {
            CHECK_THAT(c, std::fabs(Ref(back.n()) - x.n()) <= eps * std::fabs(Ref(x.n())) + tiny, "the mean of " << who << " is " << x.n() << " and becomes " << back.n() << " after narrowing and back");
            CHECK_THAT(c, std::fabs(Ref(back.s()) - sx) <= rel * sx + stiny, "the deviation of " << who << " is " << sx << " and becomes " << back.s() << " after narrowing and back");
        }
    }
    // computing and converting commute
    const std::size_t a = c.below(n), b = c.below(n);
    const V l = t[a] - t[b], r = V(v[a] - v[b]);
    const Ref m = v[a].s() + v[b].s();
    CHECK_THAT(c, std::fabs(Ref(l.s()) - r.s()) <= (4 * n0 + 64) * eps * m + stiny, "v" << a << " - v" << b << " has deviation " << l.s() << " if computed after the conversion, " << r.s() << " before");
    CHECK_THAT(c, cov(l, V(5, 1)) == 0, "a converted variable is correlated to a new one");
}

LAW(first_order, 60000, 1500000, "random programs on UReal; every result converted to another type (and back) in several ways; non-trivial: two different correlated results") {
    switch (c.range(0, 6)) {
    case 0: first<double, float>(c); break;
    case 1: first<float, double>(c); break;
    case 2: first<double, long double>(c); break;
    case 3: first<long double, double>(c); break;
    case 4: first<float, long double>(c); break;
    case 5: first<long double, float>(c); break;
    default: first<double, double>(c); break;
    }
}

// conversion without the mode being named: only if the type does not narrow
template<typename V, typename U, bool implicit>
struct Convert2 {
    static V from(pbt::Case &c, const U &x) {
        switch (c.range(0, 2)) {
        case 0: { V y(x); return y; }
        case 1: return static_cast<V>(x);
        default: { V y(5); y = V(x); return y; }
        }
    }
};
template<typename V, typename U>
struct Convert2<V, U, true> {
    static V from(pbt::Case &c, const U &x) {
        switch (c.range(0, 3)) {
        case 0: { V y = x; return y; }
        case 1: { V y(5); y = x; return y; }
        case 2: { const std::vector<U> v {x}; const V y = v[0]; return y; }
        default: return Convert2<V, U, false>::from(c, x);
        }
    }
};

template<typename S, typename T, unc::Prop ps, unc::Prop pt>
static void second(pbt::Case &c) {
    using U = unc::UReal2<S, ps>;
    using V = unc::UReal2<T, pt>;
    const Ref eps = std::max<Ref>(std::numeric_limits<S>::epsilon(), std::numeric_limits<T>::epsilon());
    const bool widening = std::numeric_limits<T>::digits >= std::numeric_limits<S>::digits;
    constexpr bool implicit = ps == pt && !std::is_same<S, T>::value && std::numeric_limits<T>::digits >= std::numeric_limits<S>::digits;
    arrow<T>(c, Num<S>::name(), Num<T>::name());
    if (ps != pt) c.label("other mode");
    Setup<U> s;
    s.eps = eps;
    s.tiny = Num<float>::tiny();
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 3;
    w.max_ops = 7;
    s.generate(c, w, 3);
    const auto &v = s.v;
    const std::size_t n0 = s.p.ind.size(), n = v.size();
    std::vector<V> t;
    for (auto &x : v) t.push_back(Convert2<V, U, implicit>::from(c, x));
    const Ref tiny = 1e-30L;
    const Ref sign = pt == unc::Prop::est ? -1 : 1;
    std::vector<Moments4> mom;
    for (std::size_t k = 0; k < n; ++k) {
        const U &x = v[k];
        const V &y = t[k];
        const std::string who = "v" + std::to_string(k);
        CHECK_THAT(c, y.first_order_n() == static_cast<T>(x.first_order_n()), "first_order_n() of " << who << " is " << x.first_order_n() << " and becomes " << y.first_order_n());
        CHECK_THAT(c, y.isindep() == x.isindep() && y.indepid() == x.indepid(), "the id of " << who << " is " << x.indepid() << " and becomes " << y.indepid());
        for (std::size_t i = 0; i < n0; ++i) {
            const Ref gx = x.grad(v[i]), gy = y.grad(t[i]);
            CHECK_THAT(c, std::fabs(gx - gy) <= 8 * eps * std::fabs(gx) + tiny, "the derivative of " << who << " with respect to v" << i << " is " << gx << " and becomes " << gy);
            for (std::size_t j = 0; j < n0; ++j) {
                const Ref hx = x.hess(v[i], v[j]), hy = y.hess(t[i], t[j]);
                CHECK_THAT(c, std::fabs(hx - hy) <= 16 * eps * std::fabs(hx) + tiny, "the second derivative of " << who << " with respect to v" << i << ", v" << j << " is " << hx << " and becomes " << hy);
                if (i != j && hx != 0) c.nontrivial();
            }
        }
        const Moments4 r = moments_of(s.dist, s.quad(k), eps);
        mom.push_back(r);
        for (int q = 1; q <= 4; ++q) {
            const Ref mx = x.m(q), my = y.m(q);
            if (std::is_same<S, T>::value) CHECK_THAT(c, std::fabs(mx - my) <= 4 * eps * std::fabs(mx), "m(" << q << ") of " << who << " is " << mx << " and becomes " << my);
            CHECK_THAT(c, std::fabs(my - r.m[q]) <= 2 * r.e[q] + tiny, "m(" << q << ") of the converted " << who << " is " << my << ", expected " << r.m[q] << " +- " << 2 * r.e[q] << " (m(" << q << ") of the original is " << mx << ")");
        }
        const Ref want = Ref(x.first_order_n()) + sign * Ref(y.m(1));
        CHECK_THAT(c, std::fabs(y.n() - want) <= 16 * eps * (std::fabs(Ref(x.first_order_n())) + std::fabs(Ref(y.m(1)))) + tiny, "n() of the converted " << who << " is " << y.n() << ", expected " << want);
        for (std::size_t j = 0; j <= k; ++j) {
            const Ref cx = cov(x, v[j]), cy = cov(y, t[j]);
            const Ref tol = 2 * std::sqrt(r.e[2] * mom[j].e[2]) + 1e3L * eps * std::fabs(r.m[1] * mom[j].m[1]) + tiny;
            CHECK_THAT(c, std::fabs(cx - cy) <= tol, "the covariance of " << who << ", v" << j << " is " << cx << " and becomes " << cy);
        }
        // and back
        const U b = U(y);
        if (widening) {
            CHECK_THAT(c, b.first_order_n() == x.first_order_n() && b.indepid() == x.indepid() && std::fabs(Ref(b.n()) - x.n()) <= 16 * eps * (std::fabs(Ref(x.n())) + 2 * std::fabs(Ref(x.m(1)))) + r.e[1] + tiny, who << " is not the same after widening and back: n " << b.n() << " instead of " << x.n());
            for (int q = 1; q <= 4; ++q) CHECK_THAT(c, std::fabs(Ref(b.m(q)) - x.m(q)) <= r.e[q] + tiny, "m(" << q << ") of " << who << " is not the same after widening and back: " << b.m(q) << " instead of " << x.m(q));
            for (std::size_t j = 0; j <= k; ++j) {
                const Ref tol = 2 * std::sqrt(r.e[2] * mom[j].e[2]) + 1e3L * eps * std::fabs(r.m[1] * mom[j].m[1]) + tiny;
                CHECK_THAT(c, std::fabs(Ref(cov(b, v[j])) - cov(x, v[j])) <= tol, "the covariance of " << who << ", v" << j << " changes widening and back");
            }
            for (std::size_t i = 0; i < n0; ++i) for (std::size_t j = 0; j < n0; ++j)
                CHECK_THAT(c, std::fabs(Ref(b.hess(v[i], v[j])) - x.hess(v[i], v[j])) <= 16 * eps * std::fabs(Ref(x.hess(v[i], v[j]))) + tiny && std::fabs(Ref(b.grad(v[i])) - x.grad(v[i])) <= 8 * eps * std::fabs(Ref(x.grad(v[i]))) + tiny, "the derivatives of " << who << " change widening and back");
        } else {
            CHECK_THAT(c, std::fabs(Ref(b.m(2)) - x.m(2)) <= 2 * r.e[2] + tiny, "the variance of " << who << " is " << x.m(2) << " and becomes " << b.m(2) << " after narrowing and back");
        }
    }
    // what is computed from the converted ones is correlated as the originals are
    const std::size_t a = c.below(n), b = c.below(n);
    const V d = t[a] * t[b];
    const U e = v[a] * v[b];
    for (std::size_t i = 0; i < n0; ++i) for (std::size_t j = 0; j < n0; ++j) {
        const Ref h = d.hess(t[i], t[j]), g = e.hess(v[i], v[j]);
        const Ref sc = std::fabs(Ref(v[a].hess(v[i], v[j])) * v[b].first_order_n()) + std::fabs(Ref(v[b].hess(v[i], v[j])) * v[a].first_order_n()) + 2 * (std::fabs(Ref(v[a].grad(v[i])) * v[b].grad(v[j])) + std::fabs(Ref(v[b].grad(v[i])) * v[a].grad(v[j])));
        CHECK_THAT(c, std::fabs(h - g) <= 64 * eps * sc + tiny, "the second derivative of v" << a << " * v" << b << " is " << h << " computed after the conversion and " << g << " before");
    }
    CHECK_THAT(c, cov(d, V(T(1), T(2), std::array<T, 6>{0, 3, 0, 15, 0, 105})) == 0 || n0 == 0 || std::fabs(Ref(cov(d, V(T(1), T(2), std::array<T, 6>{0, 3, 0, 15, 0, 105})))) <= 1e-6L * std::fabs(Ref(d.m(1))), "a converted variable is correlated to a new one");
}

template<unc::Prop ps, unc::Prop pt>
static void second_types(pbt::Case &c) {
    switch (c.range(0, ps == pt ? 5 : 6)) {
    case 0: second<double, float, ps, pt>(c); break;
    case 1: second<float, double, ps, pt>(c); break;
    case 2: second<double, long double, ps, pt>(c); break;
    case 3: second<long double, double, ps, pt>(c); break;
    case 4: second<float, long double, ps, pt>(c); break;
    case 5: second<long double, float, ps, pt>(c); break;
    default: second<double, double, ps, pt>(c); break;
    }
}

LAW(second_order, 30000, 800000, "random programs on UReal2 with random discrete distributions; every result converted to another type and/or mode (and back); non-trivial: a mixed second derivative") {
    switch (c.range(0, 3)) {
    case 0: second_types<unc::Prop::est, unc::Prop::est>(c); break;
    case 1: second_types<unc::Prop::est, unc::Prop::mean>(c); break;
    case 2: second_types<unc::Prop::mean, unc::Prop::est>(c); break;
    default: second_types<unc::Prop::mean, unc::Prop::mean>(c); break;
    }
}

// functions of many variables
template<typename S, typename T>
static void many_first(pbt::Case &c) {
    using U = unc::UReal<S>;
    using V = unc::UReal<T>;
    arrow<T>(c, Num<S>::name(), Num<T>::name());
    linear::Setup<U> m;
    m.generate(c, linear::number(c, 100, 800));
    const Ref eps = std::max<Ref>(std::numeric_limits<S>::epsilon(), std::numeric_limits<T>::epsilon()), rel = 2 * (m.n + 8) * eps;
    std::vector<V> x, t;
    for (auto &u : m.x) x.push_back(convert1<V>(c, u));
    for (auto &v : m.v) t.push_back(convert1<V>(c, v.u));
    for (std::size_t k = 0; k < t.size(); ++k) {
        const auto &v = m.v[k];
        CHECK_THAT(c, t[k].n() == static_cast<T>(v.u.n()), "the mean of v" << k << " becomes " << t[k].n());
        CHECK_THAT(c, t[k].isindep() == v.u.isindep() && t[k].indepid() == v.u.indepid(), "the id of v" << k << " is " << v.u.indepid() << " and becomes " << t[k].indepid());
        for (int i = 0; i < m.n; ++i) {
            const Ref g = t[k].grad(x[i]), h = U(t[k]).grad(m.x[i]);
            CHECK_THAT(c, g == v.k[i] && h == v.k[i], "the derivative of v" << k << " with respect to x" << i << " is " << v.k[i] << ", " << g << " converted, " << h << " converted back");
            if (i >= 40 && g != 0) c.label("a derivative with respect to a variable beyond the 40th");
            if (m.n > 200 && i > 8) i += 7;
        }
        for (std::size_t j = 0; j < t.size(); ++j) {
            Ref mag;
            const Ref e = m.covariance(v, m.v[j], &mag), g = cov(t[k], t[j]), h = cov(v.u, U(t[j]));
            CHECK_THAT(c, std::fabs(g - e) <= rel * mag, "the covariance of v" << k << ", v" << j << " converted is " << g << ", expected " << e);
            CHECK_THAT(c, std::fabs(h - e) <= rel * mag, "the covariance of v" << k << " and v" << j << " converted and back is " << h << ", expected " << e);
            if (j < k && v.size >= 10 && m.v[j].size >= 10 && mag != 0) c.nontrivial();
        }
    }
}

LAW(many_variables, 20000, 300000, "UReal: linear combinations of up to 96 (rarely 800) variables: derivatives equal and covariances right after conversion and back; non-trivial: two functions of ten or more variables with one in common") {
    switch (c.range(0, 5)) {
    case 0: many_first<double, float>(c); break;
    case 1: many_first<float, double>(c); break;
    case 2: many_first<double, long double>(c); break;
    case 3: many_first<long double, double>(c); break;
    case 4: many_first<float, long double>(c); break;
    default: many_first<long double, float>(c); break;
    }
}

template<typename S, typename T, unc::Prop ps, unc::Prop pt>
static void many_second(pbt::Case &c) {
    using U = unc::UReal2<S, ps>;
    using V = unc::UReal2<T, pt>;
    arrow<T>(c, Num<S>::name(), Num<T>::name());
    wide::Setup<U, true> s;
    MakeU<U> make;
    s.generate(c, 40, [&](int, double m, double sd) { make.kind.assign(1, c.range(0, 3)); return make(0, Ind {m, sd}); });
    const Ref eps = std::max<Ref>(std::numeric_limits<S>::epsilon(), std::numeric_limits<T>::epsilon());
    std::vector<V> t;
    for (auto &u : s.u) t.push_back(V(u));
    for (std::size_t k = 0; k < t.size(); ++k) {
        const U b = U(t[k]);
        const std::string who = "r" + std::to_string(k);
        CHECK_THAT(c, t[k].first_order_n() == static_cast<T>(s.u[k].first_order_n()), "the first order mean of " << who << " is " << s.u[k].first_order_n() << " and becomes " << t[k].first_order_n());
        CHECK_THAT(c, t[k].isindep() == s.u[k].isindep() && t[k].indepid() == s.u[k].indepid(), "the id of " << who << " is " << s.u[k].indepid() << " and becomes " << t[k].indepid());
        int mixed = 0;
        for (int i = 0; i < s.n; ++i) {
            const Ref g = s.u[k].grad(s.u[i]), h = t[k].grad(t[i]), back = b.grad(s.u[i]);
            CHECK_THAT(c, std::fabs(g - h) <= 8 * eps * std::fabs(g) && std::fabs(g - back) <= 8 * eps * std::fabs(g), "the derivative of " << who << " with respect to x" << i << " is " << g << ", " << h << " converted, " << back << " converted back");
            for (int j = 0; j <= i; ++j) {
                const Ref g = s.u[k].hess(s.u[i], s.u[j]), h = t[k].hess(t[i], t[j]), back = b.hess(s.u[i], s.u[j]);
                CHECK_THAT(c, std::fabs(g - h) <= 16 * eps * std::fabs(g) && std::fabs(g - back) <= 16 * eps * std::fabs(g), "the second derivative of " << who << " with respect to x" << i << ", x" << j << " is " << g << ", " << h << " converted, " << back << " converted back");
                mixed += i != j && g != 0;
            }
        }
        if (mixed >= 10) c.nontrivial();
        // moments
        const Ref m1 = s.u[k].m(1), m2 = s.u[k].m(2), c2 = cov(s.u[k], s.u[k]);
        Ref size = 0;
        for (int i = 0; i < s.n; ++i) { const Ref sd = s.u[i].s(); size += std::fabs(s.q[k].hess(i, i)) * sd * sd; }
        const Ref tol = 64 * s.n * s.n * eps * (m2 + size * size);
        CHECK_THAT(c, std::fabs(t[k].m(1) - m1) <= 16 * s.n * eps * size, "m(1) of " << who << " is " << m1 << " and becomes " << t[k].m(1));
        CHECK_THAT(c, std::fabs(t[k].m(2) - m2) <= tol && std::fabs(cov(t[k], t[k]) - c2) <= tol, "m(2) of " << who << " is " << m2 << " and becomes " << t[k].m(2) << ", the covariance with itself " << cov(t[k], t[k]));
        if (s.n <= 12) for (int q = 3; q <= 4; ++q) {
            const Ref a = s.u[k].m(q), g = t[k].m(q);
            CHECK_THAT(c, std::fabs(g - a) <= 1e3L * eps * std::pow(m2 + size * size, Ref(q) / 2) * s.n * s.n, "m(" << q << ") of " << who << " is " << a << " and becomes " << g);
        }
    }
}

LAW(many_second_order, 6000, 100000, "UReal2: functions of up to 40 variables with integer derivatives, to another type or mode and back: derivatives, second derivatives, moments; non-trivial: ten or more mixed second derivatives") {
    constexpr unc::Prop e = unc::Prop::est, m = unc::Prop::mean;
    switch (c.range(0, 5)) {
    case 0: many_second<double, float, e, e>(c); break;
    case 1: many_second<float, double, m, m>(c); break;
    case 2: many_second<double, double, e, m>(c); break;
    case 3: many_second<double, double, m, e>(c); break;
    case 4: many_second<double, long double, e, m>(c); break;
    default: many_second<long double, double, m, m>(c); break;
    }
}
