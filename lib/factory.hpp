// factory.hpp -- random programs to which function objects are applied, with
// the reference model continued by whoever applies them.
#ifndef FACTORY_HPP
#define FACTORY_HPP

#include "prog2.hpp"
#include <uncertainties/functions.hpp>
#include <cstring>


template<typename Real> Real mean1(const unc::UReal<Real> &x) { return x.n(); }
template<typename Real, unc::Prop p> Real mean1(const unc::UReal2<Real, p> &x) { return x.first_order_n(); }

template<typename Real> long double hess_of(const unc::UReal<Real> &, const unc::UReal<Real> &, const unc::UReal<Real> &) { return 0; }
template<typename Real, unc::Prop p>
long double hess_of(const unc::UReal2<Real, p> &f, const unc::UReal2<Real, p> &x, const unc::UReal2<Real, p> &y) { return f.hess(x, y); }

template<typename U>
struct Bench {
    using Ref = long double;
    using E = Err<Ref>;
    using Real = typename U::real_type;
    Program<Ref> p;
    std::vector<U> v;
    std::vector<Dual<Ref>> m;

    void generate(pbt::Case &c, int max_ops) {
        // long double is compared to the precision of double
        ErrEnv<Ref>::eps = std::max<Ref>(std::numeric_limits<Real>::epsilon(), std::numeric_limits<double>::epsilon());
        ErrEnv<Ref>::tiny = std::max<Ref>(std::numeric_limits<Real>::denorm_min(), std::numeric_limits<double>::denorm_min()) * 64;
        Weights2 w;
        w.max_ops = max_ops;
        w.max_ind = 3;
        w.bound = 100;
        p.generate(c, w);
        v = exec<U>(p, MakeU<U>());
        m = p.model;
        // what is applied next starts from the means the library has
        for (std::size_t k = 0; k < v.size(); ++k) m[k].v = E(Ref(mean1(v[k])));
    }
    std::size_t pick(pbt::Case &c) const { return v.size() - 1 - c.below(v.size()); }

    void push(pbt::Case &c, const U &x, const Dual<Ref> &d, const std::string &what) {
        const std::string who = "v" + std::to_string(v.size()) + " = " + what;
        NOTE(c, who);
        const std::size_t n0 = p.ind.size();
        const Ref n = mean1(x);
        CHECK_THAT(c, near<Ref>(n, d.v), "the mean of " << who << " is " << n << ", expected " << d.v.v << " +- " << d.v.e);
        for (std::size_t i = 0; i < n0; ++i) {
            const Ref g = x.grad(v[i]);
            CHECK_THAT(c, near<Ref>(g, d.g[i]), "the derivative of " << who << " with respect to v" << i << " is " << g << ", expected " << d.g[i].v << " +- " << d.g[i].e);
            if (!IsSecond<U>::value) continue;
            for (std::size_t j = 0; j < n0; ++j) {
                const Ref h = hess_of(x, v[i], v[j]);
                CHECK_THAT(c, near<Ref>(h, d.hess(i, j)), "the second derivative of " << who << " with respect to v" << i << ", v" << j << " is " << h << ", expected " << d.hess(i, j).v << " +- " << d.hess(i, j).e);
            }
        }
        v.push_back(x);
        m.push_back(d);
        m.back().v = E(n);
    }
    // can it be the argument of another one?
    static bool tame(const Dual<Ref> &d) {
        Ref t = rabs(d.v.v);
        for (auto &x : d.g) t = rmax<Ref>(t, rabs(x.v));
        for (auto &x : d.h) t = rmax<Ref>(t, rabs(x.v));
        return t < 1e6L;
    }
};

#endif
