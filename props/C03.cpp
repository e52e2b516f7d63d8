// C03: queries, copies and caching never change what a variable represents.
#include "../lib/prog1.hpp"
#include "../lib/prog2.hpp"
#include <uncertainties/io.hpp>


template<typename T> struct Same { using type = T; };
template<typename Real>
static bool close(Real a, typename Same<Real>::type b, typename Same<Real>::type scale, int k = 16) {
    if (std::isnan(a) && std::isnan(b)) return true;
    return a == b || std::fabs(a - b) <= k * std::numeric_limits<Real>::epsilon() * scale;
}

// any query, through const or non-const references
template<typename U>
static void observe(pbt::Case &c, std::vector<U> &v, int i) {
    using Real = typename U::real_type;
    U &x = v[i];
    const U &k = v[i];
    const int j = static_cast<int>(c.below(v.size()));
    Real r = 0;
    std::string what;
    switch (c.below(12)) {
    case 0: r = x.s(); what = "s() non-const"; break;
    case 1: r = k.s(); what = "s() const"; break;
    case 2: r = var(x); what = "var() non-const"; break;
    case 3: r = var(k); what = "var() const"; break;
    case 4: r = unc::sdev(x); what = "sdev()"; break;
    case 5: r = cov(x, v[j]); what = "cov()"; break;
    case 6: r = corr(v[j], x); what = "corr()"; break;
    case 7: r = x.isindep() + x.indepid(); what = "isindep()"; break;
    case 8: r = unc::format(x).size() + x.format(2).size(); what = "format()"; break;
    case 9: try { r = x.grad(v[j]); } catch (const std::invalid_argument &) {} what = "grad()"; break;
    case 10: r = x.n() + unc::nom(x); what = "n()"; break;
    case 11: { std::ostringstream ss; ss << x; r = ss.str().size(); what = "operator<<"; break; }
    }
    (void) r;
    NOTE(c, "    query " << what << " on v" << i);
}

// all the queries agree with each other and, on the two sets, with the same ones
template<typename U>
static void compare(pbt::Case &c, std::vector<U> &a, std::vector<U> &b, const std::vector<U> &probe, int order) {
    using Real = typename U::real_type;
    for (std::size_t i = 0; i < a.size(); ++i) {
        U &x = a[i], &y = b[i];
        const U &cx = x, &cy = y;
        const std::string who = "v" + std::to_string(i);
        CHECK_THAT(c, x.n() == y.n() || (std::isnan(x.n()) && std::isnan(y.n())), "the mean of " << who << " is " << y.n() << ", after queries " << x.n());
        CHECK_THAT(c, x.isindep() == y.isindep() && x.indepid() == y.indepid(), "the id of " << who << " is " << y.indepid() << ", after queries " << x.indepid());
        for (std::size_t k = 0; k < probe.size(); ++k) {
            const Real p = cov(cx, probe[k]), q = cov(cy, probe[k]);
            CHECK_THAT(c, close(p, q, std::fabs(q)), "the covariance of " << who << " with x" << k << " is " << q << ", after queries " << p);
        }
        // variances and deviations, in several orders
        Real s = 0, vv = 0, cs = 0, cv = 0;
        switch (order % 4) {
        case 0: s = x.s(); vv = var(x); cs = cx.s(); cv = var(cx); break;
        case 1: cs = cx.s(); cv = var(cx); s = x.s(); vv = var(x); break;
        case 2: vv = var(x); s = x.s(); cv = var(cx); cs = cx.s(); break;
        case 3: cv = var(cx); vv = var(x); cs = cx.s(); s = x.s(); break;
        }
        const Real ref = cy.s(), refv = var(cy), cc = cov(cx, cx);
        CHECK_THAT(c, ref >= 0, "the standard deviation of " << who << " is " << ref);
        CHECK_THAT(c, close(s, ref, ref), "s() of " << who << " is " << ref << ", after queries " << s);
        CHECK_THAT(c, close(cs, ref, ref), "s() const of " << who << " is " << ref << ", after queries " << cs);
        CHECK_THAT(c, close(unc::sdev(cx), ref, ref), "sdev() of " << who << " is " << unc::sdev(cx) << ", expected " << ref);
        CHECK_THAT(c, close(vv, refv, refv), "var() of " << who << " is " << refv << ", after queries " << vv);
        CHECK_THAT(c, close(cv, refv, refv), "var() const of " << who << " is " << refv << ", after queries " << cv);
        CHECK_THAT(c, close(cc, refv, refv), "cov(x, x) of " << who << " is " << cc << " and var(x) " << refv);
        CHECK_THAT(c, close(s * s, refv, refv), "s() of " << who << " is " << s << " and var() " << refv);
        CHECK_THAT(c, unc::nom(cx) == cx.n() || std::isnan(cx.n()), "nom() is not n()");
    }
}

// the operations, applied to both sets
template<typename U>
static bool step(pbt::Case &c, std::vector<U> &a, std::vector<U> &b, int &inplace) {
    using Real = typename U::real_type;
    const int i = static_cast<int>(c.below(a.size())), j = c.chance(1, 4) ? i : static_cast<int>(c.below(a.size()));
    auto both = [&](auto f) { f(a); f(b); };
    auto small = [&](Real x) { return std::fabs(x) < 1e8; };
    auto ok = [&](const U &x) { return std::isfinite(x.n()) && small(x.n()) && std::isfinite(x.s()) && small(x.s()); };
    const int cat = c.chance(1, 2) ? 0 : static_cast<int>(c.below(n_cat2)); // value categories
    const int kind = c.weighted({8, 8, 3, 3, 2, 2, 2, 2, 1, 2});
    switch (kind) {
    case 0: case 1: {
        const int k = static_cast<int>(c.below(4));
        if (k == 3 && std::fabs(b[j].n()) < 1e-3) return false;
        const U t = k == 0 ? b[i] + b[j] : k == 1 ? b[i] - b[j] : k == 2 ? b[i] * b[j] : b[i] / b[j];
        if (!ok(t)) return false;
        if (kind == 0) {
            both([&](std::vector<U> &v) {
                v.push_back(cat2(cat, v[i], v[j], [&](auto &&x, auto &&y) {
                    return U(k == 0 ? FWD(x) + FWD(y) : k == 1 ? FWD(x) - FWD(y) : k == 2 ? FWD(x) * FWD(y) : FWD(x) / FWD(y));
                }));
            });
            NOTE(c, "v" << a.size() - 1 << " = v" << i << " " << "+-*/"[k] << " v" << j);
        } else {
            NOTE(c, "v" << i << " " << "+-*/"[k] << "= v" << j);
            ++inplace;
            both([&](std::vector<U> &v) {
                if (cat % 2) {
                    switch (k) { case 0: v[i] += U(v[j]); break; case 1: v[i] -= U(v[j]); break; case 2: v[i] *= U(v[j]); break; default: v[i] /= U(v[j]); break; }
                } else {
                    switch (k) { case 0: v[i] += v[j]; break; case 1: v[i] -= v[j]; break; case 2: v[i] *= v[j]; break; default: v[i] /= v[j]; break; }
                }
            });
        }
        return true;
    }
    case 2: { both([&](std::vector<U> &v) { U z = cat1(cat % n_cat1, v[i], [](auto &&x) { return U(-FWD(x)); }); v.push_back(z); }); NOTE(c, "v" << a.size() - 1 << " = -v" << i); return true; }
    case 3: { both([&](std::vector<U> &v) { U z = atan(v[i]); v.push_back(z); }); NOTE(c, "v" << a.size() - 1 << " = atan(v" << i << ")"); return true; }
    case 4: { const Real d = static_cast<Real>(c.chance(1, 3) ? 0 : gen_double(c, 1)); both([&](std::vector<U> &v) { U z = cat1(cat % n_cat1, v[i], [&](auto &&x) { return U(unary(FWD(x), Real(1.5), d)); }); v.push_back(z); }); NOTE(c, "v" << a.size() - 1 << " = unary(v" << i << ", 1.5, " << d << ")"); return true; }
    case 5: { const Real x = static_cast<Real>(gen_double(c, 1)); both([&](std::vector<U> &v) { U z = cat1(cat % n_cat1, v[i], [&](auto &&y) { return U(change_nom(FWD(y), x)); }); v.push_back(z); }); NOTE(c, "v" << a.size() - 1 << " = change_nom(v" << i << ", " << x << ")"); return true; }
    case 6: { both([&](std::vector<U> &v) { U z(v[i]); v[j] = z; }); NOTE(c, "v" << j << " = copy of v" << i); return true; }
    case 7: { both([&](std::vector<U> &v) { using std::swap; if (i != j) swap(v[i], v[j]); else { U &w = v[i]; w = v[j]; } }); NOTE(c, "swap v" << i << ", v" << j); return true; }
    case 8: { both([&](std::vector<U> &v) { U t(v[i]); U z(std::move(t)); U w; w = std::move(z); v.push_back(w); }); NOTE(c, "v" << a.size() - 1 << " = moved copy of v" << i); return true; }
    default: { const Real x = static_cast<Real>(c.pick({1.0, -1.0, 2.0, 0.0, 0.5})); NOTE(c, "v" << i << " *= " << x); both([&](std::vector<U> &v) { v[i] *= x; }); ++inplace; return true; }
    }
}

template<typename U>
static void observers_of(pbt::Case &c) {
    using Real = typename U::real_type;
    std::vector<U> a, b, probe;
    const int n = 1 + static_cast<int>(c.below(4));
    for (int i = 0; i < n; ++i) {
        const Real mu = static_cast<Real>(gen_double(c, 2)), s = static_cast<Real>(gen_positive(c, 1));
        U x(mu, s);
        NOTE(c, "v" << i << " = x" << i << " = UReal(" << mu << ", " << s << ")");
        probe.push_back(x); a.push_back(x); b.push_back(x);
    }
    const int ops = 1 + static_cast<int>(c.below(14));
    int inplace = 0, queries = 0;
    bool dep = false;
    for (int q = 0; q < ops; ++q) {
        if (a.size() < 12) step(c, a, b, inplace);
        while (c.chance(1, 2) && queries < 40) {
            const int i = static_cast<int>(c.below(a.size()));
            observe(c, a, i);
            ++queries;
            dep = dep || !a[i].isindep();
        }
    }
    if (inplace >= 1 && queries >= 2 && dep) c.nontrivial();
    compare(c, a, b, probe, c.range(0, 3));
}
LAW(observers, 100000, 2500000, "random program run on two sets of variables, with queries of any kind in between on the first set only: all later queries agree (first order); non-trivial: an in-place operation and two queries, on dependent variables") { observers_of<unc::udouble>(c); }

// copies: operations on one never affect the other
template<typename U>
static void copies_of(pbt::Case &c) {
    using Real = typename U::real_type;
    std::vector<U> a;
    const int n = 1 + static_cast<int>(c.below(4));
    for (int i = 0; i < n; ++i) { const Real mu = static_cast<Real>(gen_double(c, 2)), sd = static_cast<Real>(gen_positive(c, 1)); a.emplace_back(mu, sd); }
    const std::vector<U> probe = a;
    std::vector<U> dummy = a;
    int inplace = 0;
    for (int q = static_cast<int>(c.below(6)); q > 0 && a.size() < 10; --q) step(c, a, dummy, inplace);
    const int i = static_cast<int>(c.below(a.size()));
    if (c.chance(1, 2)) (void) a[i].s();
    U x = a[i];
    // reference values, before
    const Real n0 = x.n(), s0 = static_cast<const U &>(x).s();
    const unc::Id id0 = x.indepid();
    std::vector<Real> c0;
    for (auto &p : probe) c0.push_back(cov(x, p));
    U y;
    std::vector<U> box;
    const int how = static_cast<int>(c.below(6));
    switch (how) {
    case 0: { U t(x); y = t; break; }
    case 1: y = x; break;
    case 2: { U t(x); y = std::move(t); break; }
    case 3: { U t(x); using std::swap; y = U(7, 8) + U(1, 2); swap(y, t); break; }
    case 4: for (int k = 0; k < 20; ++k) box.push_back(x); y = box[c.below(20)]; break;
    case 5: { y = x + U(3, 1); y = x; break; }
    }
    NOTE(c, "y = copy of x, way " << how);
    auto check = [&](const U &z, const char *who) {
        CHECK_THAT(c, z.n() == n0, "the mean of " << who << " is " << z.n() << ", it was " << n0);
        CHECK_THAT(c, close(z.s(), s0, s0), "the standard deviation of " << who << " is " << z.s() << ", it was " << s0);
        CHECK_THAT(c, z.indepid() == id0, "the id of " << who << " is " << z.indepid() << ", it was " << id0);
        for (std::size_t k = 0; k < probe.size(); ++k) CHECK_THAT(c, cov(z, probe[k]) == c0[k], "the covariance of " << who << " with x" << k << " is " << cov(z, probe[k]) << ", it was " << c0[k]);
    };
    check(y, "the copy");
    check(x, "the original");
    CHECK_THAT(c, close(cov(x, y), s0 * s0, s0 * s0), "the copy and the original have covariance " << cov(x, y) << ", the variance is " << s0 * s0);
    if (s0 > 0) CHECK_THAT(c, close(corr(x, y), 1, 1), "the copy and the original have correlation " << corr(x, y));
    const U d = x - y;
    CHECK_THAT(c, d.n() == 0 && d.s() <= 8 * std::numeric_limits<Real>::epsilon() * s0, "x - copy of x is " << d.n() << " with standard deviation " << d.s());
    // now change one
    const bool first = c.chance(1, 2);
    U &t = first ? x : y;
    const U &o = first ? y : x;
    for (int k = 1 + static_cast<int>(c.below(4)); k > 0; --k) {
        switch (c.below(6)) {
        case 0: t += probe[c.below(probe.size())]; break;
        case 1: t *= t; break;
        case 2: t -= o; break;
        case 3: t *= Real(3); break;
        case 4: t = U(1, 2); break;
        case 5: (void) t.s(); break;
        }
    }
    check(o, first ? "the copy, after operations on the original," : "the original, after operations on the copy,");
    if (!o.isindep()) c.nontrivial();
}
LAW(copies, 60000, 1500000, "copies (constructed, assigned, moved, swapped, in containers that reallocate) represent the same variable, and later operations and queries on one do not affect the other; non-trivial: the variable is dependent") { copies_of<unc::udouble>(c); }
LAW(types, 40000, 1000000, "the two above with float and long double") {
    if (c.chance(1, 2)) {
        if (c.chance(1, 2)) observers_of<unc::ufloat>(c); else observers_of<unc::UReal<long double>>(c);
    } else {
        if (c.chance(1, 2)) copies_of<unc::ufloat>(c); else copies_of<unc::UReal<long double>>(c);
    }
}

// second order
template<typename V>
static void second(pbt::Case &c) {
    using Real = typename V::real_type;
    ErrEnv<long double>::eps = Num<Real>::eps() < Num<double>::eps() ? Num<double>::eps() : static_cast<long double>(Num<Real>::eps());
    ErrEnv<long double>::tiny = std::is_same<Real, float>::value ? Num<float>::tiny() : Num<double>::tiny();
    Weights2 w;
    w.max_ops = 8;
    w.max_ind = 4;
    w.bound = 1e4;
    Program<long double> p;
    p.generate(c, w);
    MakeU<V> make;
    for (std::size_t i = 0; i < p.ind.size(); ++i) make.kind.push_back(c.range(0, 3));
    std::vector<V> a, b;
    const std::size_t n = p.ind.size();
    for (std::size_t i = 0; i < n; ++i) { V x = make(static_cast<int>(i), p.ind[i]); a.push_back(x); b.push_back(x); }
    int queries = 0;
    auto observe2 = [&]() {
        const int i = static_cast<int>(c.below(a.size())), j = static_cast<int>(c.below(a.size()));
        V &x = a[i];
        ++queries;
        NOTE(c, "    query on v" << i);
        try {
            switch (c.below(12)) {
            case 0: (void) x.s(); break;
            case 1: (void) x.n(); break;
            case 2: (void) x.m(c.range(1, 4)); break;
            case 3: (void) x.skew(); (void) x.kurt(); break;
            case 4: (void) cov(x, a[j]); break;
            case 5: (void) corr(x, a[j]); break;
            case 6: (void) x.grad(a[j]); break;
            case 7: (void) x.hess(a[j], a[c.below(a.size())]); break;
            case 8: (void) unc::format(x); break;
            case 9: (void) x.isindep(); (void) x.indepid(); break;
            case 10: { V t(x); V z(std::move(t)); z = x; break; }
            case 11: (void) isfinite(x); (void) isnormal(x); break;
            }
        } catch (const std::invalid_argument &) {}
    };
    for (auto &o : p.ops) {
        a.push_back(exec_op<V>(o, a));
        b.push_back(exec_op<V>(o, b));
        while (c.chance(1, 2)) observe2();
    }
    bool dep = false;
    for (std::size_t k = 0; k < a.size(); ++k) {
        dep = dep || (a[k].indepid() < 0);
        const std::string who = "v" + std::to_string(k);
        CHECK_THAT(c, a[k].first_order_n() == b[k].first_order_n(), "first_order_n() of " << who << " is " << b[k].first_order_n() << ", after queries " << a[k].first_order_n());
        CHECK_THAT(c, a[k].indepid() == b[k].indepid(), "the id of " << who << " is " << b[k].indepid() << ", after queries " << a[k].indepid());
        for (int q = 1; q <= 4; ++q) CHECK_THAT(c, close(a[k].m(q), b[k].m(q), std::fabs(b[k].m(q))), "m(" << q << ") of " << who << " is " << b[k].m(q) << ", after queries " << a[k].m(q));
        CHECK_THAT(c, close(a[k].n(), b[k].n(), std::fabs(b[k].n())), "n() of " << who << " is " << b[k].n() << ", after queries " << a[k].n());
        CHECK_THAT(c, close(var(a[k]), a[k].m(2), std::fabs(a[k].m(2))), "var() of " << who << " is not m(2)");
        for (std::size_t i = 0; i < n; ++i) {
            CHECK_THAT(c, close(a[k].grad(a[i]), b[k].grad(b[i]), std::fabs(b[k].grad(b[i]))), "a derivative of " << who << " changed after queries");
            for (std::size_t j = 0; j <= i; ++j) CHECK_THAT(c, close(a[k].hess(a[i], a[j]), b[k].hess(b[i], b[j]), std::fabs(b[k].hess(b[i], b[j]))), "a second derivative of " << who << " changed after queries");
        }
    }
    if (queries >= 2 && dep) c.nontrivial();
    // copies
    const std::size_t k = a.size() - 1;
    V x = a[k], y(x), z;
    z = std::move(y);
    using std::swap;
    V e(5);
    swap(z, e);
    CHECK_THAT(c, e.first_order_n() == x.first_order_n() && e.indepid() == x.indepid() && close(e.m(3), x.m(3), std::fabs(x.m(3))), "a moved and swapped copy is not the original");
    const Real m2 = x.m(2);
    if (!std::is_same<Real, float>::value && m2 > 1e-9 && std::isfinite(m2) && std::fabs(x.m(1)) < 1e3 * std::sqrt(m2)) CHECK_THAT(c, std::fabs(corr(x, e) - 1) < 1e-6, "the correlation of a variable with its copy is " << corr(x, e));
    e = e * e + V(1);
    CHECK_THAT(c, x.first_order_n() == b[k].first_order_n() && close(x.m(2), b[k].m(2), std::fabs(b[k].m(2))), "the original changed with its copy");
}
LAW(second_order, 30000, 700000, "the same for second order variables of both modes; non-trivial: two or more queries and a dependent variable") {
    if (c.chance(1, 2)) second<unc::udouble2e>(c); else second<unc::udouble2m>(c);
}
LAW(second_order_types, 15000, 400000, "the same with float and long double") {
    switch (c.range(0, 3)) {
    case 0: second<unc::UReal2<float, unc::Prop::est>>(c); break;
    case 1: second<unc::UReal2<float, unc::Prop::mean>>(c); break;
    case 2: second<unc::UReal2<long double, unc::Prop::est>>(c); break;
    default: second<unc::UReal2<long double, unc::Prop::mean>>(c); break;
    }
}
