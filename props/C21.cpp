// C21: function factories with explicit derivatives.
#include "../lib/factory.hpp"
#include <memory>

using Ref = long double;
using E = Err<Ref>;

// A "function" whose value is unrelated at each point, so that a callable
// called at another point, or in place of another, gives something else.
template<typename Real>
static Real scatter(std::uint64_t key, const Real &x, const Real &y) {
    const double a = static_cast<double>(x), b = static_cast<double>(y);
    std::uint64_t p, q;
    std::memcpy(&p, &a, 8);
    std::memcpy(&q, &b, 8);
    const std::uint64_t h = pbt::mix(pbt::mix(pbt::mix(key) ^ p) + q);
    if (h % 5 == 0) return Real(0);
    return Real(static_cast<double>(static_cast<int>(h / 8 % 4001) - 2000) / 128);
}

template<typename Real>
struct Functor {
    std::uint64_t key;
    std::shared_ptr<int> alive;
    Real operator()(const Real &x) const { return scatter<Real>(key, x, Real(0)); }
    Real operator()(const Real &x, const Real &y) const { return scatter<Real>(key, x, y); }
};

template<typename Real>
static unc::Unary<Real> callable1(pbt::Case &c, std::uint64_t key) {
    switch (c.range(0, 2)) {
    case 0: return [key](Real x) { return scatter<Real>(key, x, Real(0)); };
    case 1: return Functor<Real> {key, std::make_shared<int>(3)};
    default: {
        std::vector<std::uint64_t> keys(20, key);
        return [keys](const Real &x) { return scatter<Real>(keys.back(), x, Real(0)); };
    }
    }
}
template<typename Real>
static unc::Binary<Real> callable2(pbt::Case &c, std::uint64_t key) {
    switch (c.range(0, 2)) {
    case 0: return [key](Real x, Real y) { return scatter<Real>(key, x, y); };
    case 1: return Functor<Real> {key, std::make_shared<int>(3)};
    default: {
        std::vector<std::uint64_t> keys(20, key);
        return [keys](const Real &x, const Real &y) { return scatter<Real>(keys.back(), x, y); };
    }
    }
}

// the factories, by class
template<typename U> struct Make;
template<typename Real> struct Make<unc::UReal<Real>> {
    using F1 = unc::UUnary<Real>;
    using F2 = unc::UBinary<Real>;
    static F1 one(pbt::Case &c, const std::uint64_t *key) {
        const auto f = callable1<Real>(c, key[0]), d = callable1<Real>(c, key[1]);
        return unc::uunary<Real>(f, d);
    }
    static F2 two(pbt::Case &c, const std::uint64_t *key) {
        const auto f = callable2<Real>(c, key[0]), dx = callable2<Real>(c, key[1]), dy = callable2<Real>(c, key[2]);
        return unc::ubinary<Real>(f, dx, dy);
    }
};
template<typename Real, unc::Prop p> struct Make<unc::UReal2<Real, p>> {
    using F1 = unc::UUnary2<Real, p>;
    using F2 = unc::UBinary2<Real, p>;
    static F1 one(pbt::Case &c, const std::uint64_t *key) {
        const auto f = callable1<Real>(c, key[0]), d = callable1<Real>(c, key[1]), dd = callable1<Real>(c, key[2]);
        return unc::uunary2<Real, p>(f, d, dd);
    }
    static F2 two(pbt::Case &c, const std::uint64_t *key) {
        unc::Binary<Real> f[6];
        for (int k = 0; k < 6; ++k) f[k] = callable2<Real>(c, key[k]);
        return unc::ubinary2<Real, p>(f[0], f[1], f[2], f[3], f[4], f[5]);
    }
};

template<typename F>
struct Object {
    F f;
    std::array<std::uint64_t, 6> key;
};

template<typename U>
static void run(pbt::Case &c) {
    using Real = typename U::real_type;
    Bench<U> b;
    b.generate(c, 4);
    std::vector<Object<typename Make<U>::F1>> one;
    std::vector<Object<typename Make<U>::F2>> two;
    auto keys = [&](std::array<std::uint64_t, 6> &k) { for (auto &x : k) x = c.draw(1000000); };
    // the callables given to the factories do not survive this scope
    for (int k = c.range(1, 2); k > 0; --k) {
        one.emplace_back();
        keys(one.back().key);
        one.back().f = Make<U>::one(c, one.back().key.data());
        two.emplace_back();
        keys(two.back().key);
        two.back().f = Make<U>::two(c, two.back().key.data());
    }
    const int calls = c.range(1, 6);
    bool aliased = false, correlated = false;
    for (int q = 0; q < calls; ++q) {
        const std::size_t i = b.pick(c);
        if (!b.tame(b.m[i])) continue;
        if (c.chance(1, 3)) {
            auto &o = one[c.below(one.size())];
            const Real x = mean1(b.v[i]);
            auto val = [&](int k) { return E(Ref(scatter<Real>(o.key[k], x, Real(0)))); };
            // the object itself, or a copy of it
            const auto f = o.f;
            const U arg = b.v[i];
            const U r = c.chance(1, 2) ? f(arg) : o.f(b.v[i]);
            b.push(c, r, dual_unary<Ref>(b.m[i], val(0), val(1), val(2)), "function " + std::to_string(&o - one.data()) + " of v" + std::to_string(i));
        } else {
            auto &o = two[c.below(two.size())];
            const std::size_t j = c.chance(1, 4) ? i : b.pick(c);
            if (!b.tame(b.m[j])) continue;
            const Real x = mean1(b.v[i]), y = mean1(b.v[j]);
            auto val = [&](int k) { return E(Ref(scatter<Real>(o.key[k], x, y))); };
            const auto f = o.f;
            U r;
            if (c.chance(1, 2)) r = f(b.v[i], b.v[j]);
            else {
                U a = b.v[i];
                const U d = b.v[j];
                if (c.chance(1, 2)) r = o.f(a, d);
                else { a = o.f(a, d); r = a; c.label("result assigned to the argument"); }
            }
            if (i == j) aliased = true;
            int common = 0;
            for (std::size_t k = 0; k < b.p.ind.size(); ++k) if (b.m[i].in[k] && b.m[j].in[k]) ++common;
            if (common && i != j) correlated = true;
            b.push(c, r, dual_binary<Ref>(b.m[i], b.m[j], val(0), val(1), val(2), val(3), val(4), val(5)),
                   "function " + std::to_string(&o - two.data()) + " of v" + std::to_string(i) + ", v" + std::to_string(j));
        }
        if (calls > 1) c.label("repeated calls");
    }
    if (aliased) c.label("the same variable as both arguments");
    if (correlated) { c.label("correlated arguments"); c.nontrivial(); }
}

#define ABOUT " function objects made from callables with values unrelated at each point, applied to the results of random programs and of themselves; mean and derivatives against the chain rule; non-trivial: two different correlated arguments"
LAW(first_order, 300000, 6000000, "UReal:" ABOUT) {
    switch (c.range(0, 2)) {
    case 0: run<unc::UReal<double>>(c); break;
    case 1: run<unc::UReal<float>>(c); break;
    default: run<unc::UReal<long double>>(c); break;
    }
}
LAW(second_order, 150000, 3000000, "UReal2, both modes:" ABOUT) {
    switch (c.range(0, 3)) {
    case 3: run<unc::UReal2M<long double>>(c); break;
    case 0: run<unc::udouble2e>(c); break;
    case 1: run<unc::udouble2m>(c); break;
    default: run<unc::UReal2E<float>>(c); break;
    }
}
