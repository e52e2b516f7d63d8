// C05: unique and stable identity of the independent variables.
#include "../lib/prog1.hpp"
#include "../lib/prog2.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/ureals.hpp>
#include <unordered_set>
#include <stdexcept>

using Ref = long double;
using U1 = unc::udouble;
using E2 = unc::udouble2e;
using M2 = unc::udouble2m;

static const std::array<double, 6> normal6 {0, 3, 0, 15, 0, 105};

struct Made { unc::Id id; bool indep; std::string how; bool null; };

// one construction with explicit uncertainty, of a random kind
static void construct(pbt::Case &c, std::vector<Made> &out, std::vector<U1> &u1, std::vector<E2> &u2) {
    // null deviations: whether they get an id of their own is not specified,
    // but they must not get that of another variable
    const bool null = c.chance(1, 8);
    const double n = gen_double(c, 2), s = null ? 0 : gen_positive(c, 2);
    auto add = [&](unc::Id id, bool indep, const char *how) { out.push_back({id, indep, how, null}); };
    switch (c.below(13)) {
    case 0: { U1 x(n, s); add(x.indepid(), x.isindep(), "UReal<double>(n, s)"); u1.push_back(x); break; }
    case 1: { U1 x = {n, s}; add(x.indepid(), x.isindep(), "UReal<double> = {n, s}"); u1.push_back(x); break; }
    case 2: { unc::ufloat x(static_cast<float>(n), static_cast<float>(s)); add(x.indepid(), x.isindep(), "UReal<float>(n, s)"); break; }
    case 3: { unc::UReal<long double> x(n, s); add(x.indepid(), x.isindep(), "UReal<long double>(n, s)"); break; }
    case 4: { E2 x(n, s, normal6); add(x.indepid(), x.isindep(), "UReal2E(n, s, moments)"); u2.push_back(x); break; }
    case 5: { M2 x(n, s, normal6, -1); add(x.indepid(), x.isindep(), "UReal2M(n, s, moments, -1)"); break; }
    case 6: {
        const double v = s * s;
        const std::array<double, 7> m {v, 0, 3 * v * v, 0, 15 * v * v * v, 0, 105 * v * v * v * v};
        E2 x(n, m, -1);
        add(x.indepid(), x.isindep(), "UReal2E(n, central moments, -1)");
        u2.push_back(x);
        break;
    }
    case 7: { E2 x = unc::distr::normal<E2>(n, s); add(x.indepid(), x.isindep(), "normal"); u2.push_back(x); break; }
    case 8: { E2 x = unc::distr::uniform<E2>(n, n + (null ? 1 : s)); add(x.indepid(), x.isindep(), "uniform"); u2.push_back(x); break; }
    case 9: { M2 x = unc::distr::chisquare<M2>(1 + c.range(0, 20)); add(x.indepid(), x.isindep(), "chisquare"); break; }
    case 10: { unc::ufloat2m x = unc::distr::normal<unc::ufloat2m>(static_cast<float>(n), static_cast<float>(s)); add(x.indepid(), x.isindep(), "normal<ufloat2m>"); break; }
    case 11: {
        const std::vector<double> mu {n}, cv {s * s};
        const auto x = unc::ureals<std::vector<U1>>(mu, cv);
        add(x[0].indepid(), x[0].isindep(), "ureals");
        u1.push_back(x[0]);
        break;
    }
    case 12: {
        // a failed construction in between
        bool thrown = false;
        try { U1 x(n, null ? -1 : -s); (void) x; } catch (const std::invalid_argument &) { thrown = true; }
        CHECK_THAT(c, thrown, "UReal(" << n << ", " << -s << ") does not throw std::invalid_argument");
        U1 x(n, s);
        add(x.indepid(), x.isindep(), "UReal(n, s) after a failed construction");
        u1.push_back(x);
    }
    }
}

static void check_made(pbt::Case &c, const std::vector<Made> &v) {
    std::map<unc::Id, std::size_t> ids;
    for (std::size_t k = 0; k < v.size(); ++k) {
        CHECK_THAT(c, v[k].indep, v[k].how << " is not independent");
        if (v[k].null && v[k].id == 0) continue;
        CHECK_THAT(c, v[k].id > 0, v[k].how << " has id " << v[k].id);
        auto r = ids.insert({v[k].id, k});
        CHECK_THAT(c, r.second, "variable " << k << ", " << v[k].how << ", has the same id, " << v[k].id << ", of variable " << r.first->second << ", " << v[r.first->second].how);
    }
}

LAW(fresh, 90000, 800000, "mixed constructions of both classes by constructors, distributions and ureals: ids positive, all different, zero mutual covariance; non-trivial: three or more constructions") {
    std::vector<Made> v;
    std::vector<U1> u1;
    std::vector<E2> u2;
    const int n = 2 + static_cast<int>(c.below(24));
    for (int i = 0; i < n; ++i) construct(c, v, u1, u2);
    check_made(c, v);
    for (std::size_t i = 0; i < u1.size(); ++i) for (std::size_t j = 0; j < u1.size(); ++j) {
        if (i != j) CHECK_THAT(c, cov(u1[i], u1[j]) == 0, "two variables created independently have covariance " << cov(u1[i], u1[j]));
        else CHECK_THAT(c, (cov(u1[i], u1[i]) > 0) == (u1[i].s() > 0), "the variance is " << cov(u1[i], u1[i]) << ", the deviation " << u1[i].s());
    }
    for (std::size_t i = 0; i < u2.size(); ++i) for (std::size_t j = 0; j < u2.size(); ++j) {
        if (i != j) CHECK_THAT(c, cov(u2[i], u2[j]) == 0, "two variables created independently have covariance " << cov(u2[i], u2[j]));
        else CHECK_THAT(c, (cov(u2[i], u2[i]) > 0) == (u2[i].s() > 0), "the variance is " << cov(u2[i], u2[i]) << ", the deviation " << u2[i].s());
    }
    if (n > 2) c.nontrivial();
}

// More variables than fit in any narrow counter.
LAW(many, 16, 160, "more than a hundred thousand constructions of both classes: no id appears twice; non-trivial: always") {
    std::unordered_set<unc::Id> ids;
    const int step = 1 + static_cast<int>(c.below(4));
    const int n = 120000 + static_cast<int>(c.below(20000));
    std::unordered_set<unc::Id> seen;
    seen.reserve(n);
    for (int i = 0; i < n; ++i) {
        unc::Id id;
        if (i % (4 * step) == 0) id = E2(i, 1, normal6, -1).indepid();
        else if (i % (4 * step) == step) id = M2(i, {1, 0, 3, 0, 15, 0, 105}, -1).indepid();
        else if (i % 3 == 0) id = unc::ufloat(1.f, 1.f).indepid();
        else id = U1(i, 1).indepid();
        CHECK_THAT(c, id > 0, "variable " << i << " has id " << id);
        CHECK_THAT(c, seen.insert(id).second, "the id " << id << " of variable " << i << " was already used");
    }
    c.nontrivial();
}

// More variables than a 32 bit counter can tell apart: a simulation that makes
// new variables in a loop gets there in less than a minute.
static void billions(pbt::Case &c) {
    const std::uint64_t n = (1ull << 31) + 1000;
    std::vector<U1> first;
    std::set<unc::Id> ids;
    auto keep = [&](std::vector<U1> &to, std::uint64_t i) {
        const U1 x(1, 2);
        CHECK_THAT(c, ids.insert(x.indepid()).second, "the variable created after " << i << " others has the id " << x.indepid() << " of one of the first or last ones");
        to.push_back(x);
    };
    for (int i = 0; i < 100; ++i) keep(first, i);
    for (std::uint64_t i = 100; i < n; ++i) {
        const U1 x(0, 1);
        if (!(x.indepid() > 0)) CHECK_THAT(c, false, "a variable created after " << i << " others has id " << x.indepid());
    }
    std::vector<U1> last;
    for (int i = 0; i < 100; ++i) keep(last, n + i);
    const E2 e(1, 2, normal6);
    CHECK_THAT(c, e.indepid() > 0 && ids.count(e.indepid()) == 0 && (e * e).hess(e, e) == 2, "UReal2 created after " << n << " variables has id " << e.indepid());
    for (const U1 &x : last) {
        CHECK_THAT(c, x.isindep() && cov(x, x) == 4 && cov(x + first[0], x) == 4 && (3 * x).grad(x) == 3, "a variable created after " << n << " others has id " << x.indepid() << ", covariance " << cov(x, x) << " with itself");
        for (const U1 &y : first) CHECK_THAT(c, cov(x, y) == 0 && cov(x + first[1], x - y) == (&y == &first[1] ? 0 : 4), "wrong covariance of a variable created after " << n << " others");
    }
    c.nontrivial();
}
static pbt::Register reg_billions("billions", 1, 2, billions,
    "a history of more than 2^31 constructions: ids positive, the last ones different from the first ones, right variances and covariances; non-trivial: always", 400);

// What a program leaves: independent exactly when it must be.
template<typename U>
static void check_status(pbt::Case &c, const U &u, const std::set<int> &support, int nonzero, const std::vector<unc::Id> &id, const std::string &what) {
    if (support.size() <= 1) {
        CHECK_THAT(c, u.isindep(), what << " depends on " << support.size() << " variables and is not independent");
        const unc::Id want = support.empty() ? 0 : id[*support.begin()];
        CHECK_THAT(c, u.indepid() == want, what << " has id " << u.indepid() << ", expected " << want);
    } else if (nonzero > 1) {
        CHECK_THAT(c, !u.isindep(), what << " depends on " << nonzero << " variables and is independent");
        CHECK_THAT(c, u.indepid() == unc::invalid_id, what << " depends on " << nonzero << " variables and has id " << u.indepid());
        CHECK_THAT(c, u.indepid() < 0, "invalid_id is " << u.indepid());
        c.nontrivial();
    } else {
        // exact cancellation: either is fine, but they must agree
        CHECK_THAT(c, u.isindep() == (u.indepid() != unc::invalid_id), what << ": isindep() is " << u.isindep() << " and indepid() is " << u.indepid());
    }
}

LAW(programs, 150000, 1500000, "isindep() and indepid() of what a random program over UReal leaves; non-trivial: a variable with two or more non-null coefficients") {
    Weights1 w;
    w.inplace = 5; w.inplace_scalar = 3; w.change_nom = 2; w.observe = 2;
    w.max_ops = 12;
    Machine1<double> m(c, w);
    m.start();
    const int ops = 1 + static_cast<int>(c.below(w.max_ops));
    for (int i = 0; i < ops; ++i) m.step();
    for (std::size_t i = 0; i < m.vars.size(); ++i) {
        auto &v = m.vars[i];
        // a null deviation given explicitly: the id is unspecified
        std::set<int> s = v.m.support;
        bool zero = false;
        for (std::size_t k = 0; k < m.probe_s.size(); ++k) if (m.probe_s[k] == 0) zero = true;
        if (zero) { c.label("explicit null deviation"); continue; }
        int nz = 0;
        for (std::size_t k = 0; k < v.m.c.size(); ++k) if (s.count(static_cast<int>(k)) && rabs(v.m.c[k].v) > 2 * v.m.c[k].e) ++nz;
        check_status(c, v.u, s, nz, m.probe_id, "v" + std::to_string(i));
        // the same after a conversion and a change of mean
        const unc::UReal<long double> l = v.u;
        check_status(c, l, s, nz, m.probe_id, "the conversion to long double of v" + std::to_string(i));
        check_status(c, change_nom(v.u, 1.5), s, nz, m.probe_id, "change_nom of v" + std::to_string(i));
    }
}

template<typename U>
static void second(pbt::Case &c) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    Weights2 w;
    w.max_ops = 8;
    w.constant = 3;
    Program<Ref> p;
    p.generate(c, w);
    const auto v = exec<U>(p, MakeU<U>());
    std::vector<unc::Id> id;
    for (std::size_t i = 0; i < p.ind.size(); ++i) id.push_back(v[i].indepid());
    for (std::size_t i = 0; i < id.size(); ++i) {
        CHECK_THAT(c, id[i] > 0, "v" << i << " has id " << id[i]);
        for (std::size_t j = 0; j < i; ++j) CHECK_THAT(c, id[i] != id[j], "v" << i << " and v" << j << " have the same id");
    }
    for (std::size_t k = 0; k < v.size(); ++k) {
        std::set<int> s;
        for (std::size_t i = 0; i < id.size(); ++i) if (p.model[k].in[i]) s.insert(static_cast<int>(i));
        check_status(c, v[k], s, p.model[k].nonzero(), id, "v" + std::to_string(k));
        for (std::size_t i = 0; i < id.size(); ++i) {
            if (!p.model[k].in[i]) CHECK_THAT(c, cov(v[k], v[i]) == 0, "v" << k << " was computed without v" << i << " and their covariance is " << cov(v[k], v[i]));
        }
    }
}
LAW(second_order, 120000, 1000000, "isindep() and indepid() of what a random program over UReal2 leaves; non-trivial: a variable with two or more non-null derivatives") {
    if (c.chance(1, 2)) second<E2>(c); else second<M2>(c);
}

template<typename F>
static void rejects(pbt::Case &c, F f, const char *what, double s) {
    bool thrown = false;
    try { f(); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK_THAT(c, thrown, what << " with standard deviation " << s << " does not throw std::invalid_argument");
}

LAW(invalid, 20000, 400000, "negative deviations are rejected by every constructor, exact numbers carry no id; non-trivial: always") {
    double n = gen_double(c, 3), s = -gen_positive(c, 3);
    if (c.chance(1, 4)) s = c.pick({-5e-324, -1e-310, -1e300, -std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::epsilon()});
    const double t = c.chance(1, 2) ? 0 : -1;
    rejects(c, [&] { U1 x(n, s); }, "UReal", s);
    rejects(c, [&] { unc::UReal<long double> x(n, s); }, "UReal<long double>", s);
    rejects(c, [&] { E2 x(n, s, normal6, t); }, "UReal2E", s);
    rejects(c, [&] { M2 x(n, s, normal6, t); }, "UReal2M", s);
    rejects(c, [&] { unc::distr::normal<E2>(n, s); }, "normal", s);
    c.nontrivial();
    const U1 a(n), b, d = n, e = a + b * 2 - d;
    for (const U1 *x : {&a, &b, &d, &e}) {
        CHECK_THAT(c, x->isindep() && x->indepid() == 0 && x->s() == 0, "an exact number has isindep() " << x->isindep() << ", indepid() " << x->indepid() << ", s() " << x->s());
    }
    const E2 f(n), g, h = n, i = f + g * 2 - h;
    for (const E2 *x : {&f, &g, &h, &i}) {
        CHECK_THAT(c, x->isindep() && x->indepid() == 0 && x->s() == 0, "an exact number has isindep() " << x->isindep() << ", indepid() " << x->indepid() << ", s() " << x->s());
    }
    // exact numbers do not use up ids, nor do they get those of others
    const U1 y(n, -s), z(n, -s);
    CHECK_THAT(c, cov(a, y) == 0 && cov(y, z) == 0 && cov(e, y) == 0, "covariance between variables of different ids");
}
