// prog1.hpp -- random programs on UReal<Real>, run side by side with a
// reference model of first order propagation.
//
// Model of a variable: its mean, and the coefficient (derivative times standard
// deviation) with respect to each independent variable created so far, all
// with error bounds; plus the set of independent variables that entered the
// computation. The model knows nothing of how the library stores things.
#ifndef PROG1_HPP
#define PROG1_HPP

#include "category.hpp"
#include "gen.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <memory>
#include <set>
#include <utility>
#include <vector>

namespace unc = uncertainties;

template<typename Real>
struct Model1 {
    using Ref = typename Num<Real>::Ref;
    using E = Err<Ref>;
    E n;
    std::vector<E> c;        // index: number of the independent variable
    std::set<int> support;   // independent variables that entered
    bool exact_one = false;

    E coef(std::size_t k) const { return k < c.size() ? c[k] : E(0); }
};

template<typename Real>
Model1<Real> combine(const typename Model1<Real>::E &n,
                     std::initializer_list<std::pair<const Model1<Real> *, typename Model1<Real>::E>> l) {
    using E = typename Model1<Real>::E;
    Model1<Real> r;
    r.n = n;
    std::size_t size = 0;
    for (auto &p : l) size = std::max(size, p.first->c.size());
    r.c.resize(size);
    for (std::size_t k = 0; k < size; ++k) {
        E s(0);
        for (auto &p : l) {
            if (!p.first->support.count(static_cast<int>(k))) continue;
            s = s + p.second * p.first->coef(k);
        }
        r.c[k] = s;
    }
    for (auto &p : l) r.support.insert(p.first->support.begin(), p.first->support.end());
    return r;
}

template<typename Real>
typename Model1<Real>::E mcov(const Model1<Real> &a, const Model1<Real> &b) {
    using E = typename Model1<Real>::E;
    E s(0);
    const std::size_t n = std::min(a.c.size(), b.c.size());
    for (std::size_t k = 0; k < n; ++k) {
        if (a.support.count(static_cast<int>(k)) && b.support.count(static_cast<int>(k))) s = s + a.c[k] * b.c[k];
    }
    return s;
}

struct Weights1 {
    int indep = 6, constant = 2, neg = 2, binary = 14, scalar = 4, fun = 3;
    int inplace = 0, inplace_scalar = 0, copy = 1, custom = 2, nary = 2, change_nom = 0, observe = 0;
    int max_ops = 14;
    int max_vars = 6;
    bool many = false;  // sometimes start from many independent variables
};

template<typename Real>
class Machine1 {
public:
    using U = unc::UReal<Real>;
    using N = Num<Real>;
    using Ref = typename N::Ref;
    using E = Err<Ref>;
    using M = Model1<Real>;

    struct Var { U u; M m; };

    pbt::Case &c;
    Weights1 w;
    std::vector<Var> vars;
    std::vector<U> probe;        // pristine independent variables
    std::vector<Real> probe_s;
    std::vector<unc::Id> probe_id;
    int ops_done = 0, binary_ops = 0, shared_ops = 0, inplace_ops = 0, alias_ops = 0;
    std::string what;

    Machine1(pbt::Case &cc, const Weights1 &ww): c(cc), w(ww) {
        ErrEnv<Ref>::eps = N::eps();
        ErrEnv<Ref>::tiny = N::tiny();
    }

    Real number(int e10 = 3, bool zero = true) { return N::make(c, gen_double(c, e10, zero)); }
    Real positive(int e10 = 3) { Real x = number(e10, false); return x < 0 ? Real(-x) : x; }

    static bool fine(const E &x, Ref scale) {
        const Ref a = rabs(x.v);
        return a <= Ref(1e12) && x.e <= Ref(1e-5) * rmax<Ref>(a, scale) && x.e < Ref(1e6);
    }
    bool acceptable(const M &m) const {
        if (!(rabs(m.n.v) <= Ref(1e12)) || !(m.n.e <= Ref(1))) return false;
        Ref mx(0);
        for (auto &x : m.c) mx = rmax<Ref>(mx, rabs(x.v));
        for (auto &x : m.c) {
            if (!(rabs(x.v) <= Ref(1e12))) return false;
            if (!N::exact && !(x.e <= Ref(1e-3) * rmax<Ref>(mx, Ref(1)))) return false;
        }
        return true;
    }

    int pick() { return static_cast<int>(c.below(vars.size())); }

    void store(const U &u, const M &m) {
        if (vars.size() < static_cast<std::size_t>(w.max_vars) || (w.many && vars.size() < 70 && probe.size() > 20 && c.chance(1, 2))) {
            vars.push_back({u, m});
            touched = static_cast<int>(vars.size()) - 1;
        } else {
            touched = pick();
            vars[touched].u = u;
            vars[touched].m = m;
        }
    }

    int new_indep() {
        const Real n = number();
        const Real s = c.chance(1, 40) ? Real(0) : Real(positive(2) * Real(scale));
        gap.skip();
        U u(n, s);
        M m;
        m.n = E(N::ref(n));
        const int k = static_cast<int>(probe.size());
        m.c.resize(k + 1);
        m.c[k] = E(N::ref(s));
        if (s != 0) m.support.insert(k);
        else m.exact_one = true;
        probe.push_back(u);
        probe_s.push_back(s);
        probe_id.push_back(u.indepid());
        NOTE(c, "x" << k << " = UReal(" << n << ", " << s << ")");
        // the probe and the working copy are copies of the same variable
        store(u, m);
        return touched;
    }

    int touched = -1;
    double scale = 1;
    IdGap gap;

    const char *opname(int k) { static const char *s[] = {"+", "-", "*", "/"}; return s[k]; }

    E apply_n(int k, const E &a, const E &b) {
        switch (k) {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        default: return a / b;
        }
    }
    // derivatives of a op b
    E dda(int k, const E &, const E &b) { return k < 2 ? E(1) : k == 2 ? b : E(1) / b; }
    E ddb(int k, const E &a, const E &b) { return k == 0 ? E(1) : k == 1 ? E(-1) : k == 2 ? a : -(a / b) / b; }

    M model_binary(int k, const M &a, const M &b) {
        return combine<Real>(apply_n(k, a.n, b.n), {{&a, dda(k, a.n, b.n)}, {&b, ddb(k, a.n, b.n)}});
    }
    U lib_binary(int k, const U &a, const U &b, int cat = 0) {
        switch (k) {
        case 0: return cat2(cat, a, b, [](auto &&x, auto &&y) { return U(FWD(x) + FWD(y)); });
        case 1: return cat2(cat, a, b, [](auto &&x, auto &&y) { return U(FWD(x) - FWD(y)); });
        case 2: return cat2(cat, a, b, [](auto &&x, auto &&y) { return U(FWD(x) * FWD(y)); });
        default: return cat2(cat, a, b, [](auto &&x, auto &&y) { return U(FWD(x) / FWD(y)); });
        }
    }

    // value category of the operands
    int category(int n) {
        if (!c.chance(1, 3)) return 0;
        c.label("temporary operands");
        return static_cast<int>(c.below(n));
    }

    bool division_ok(int k, const M &b) { return k != 3 || rabs(b.n.v) > Ref(1e-6); }

    void start() {
        int n = 1 + static_cast<int>(c.below(4));
        // sometimes all the deviations are very small
        if (N::eps() < Ref(1e-10) && !N::exact && c.chance(1, 6)) scale = std::ldexp(1, c.pick({-20, -40, -60, -80, -200, -400}));
        if (w.many && c.chance(1, 12)) {
            n = 20 + static_cast<int>(c.below(45));
            c.label("many independent variables");
        }
        gap.choose(c);
        for (int i = 0; i < n; ++i) new_indep();
    }

    // number of operations, rarely very many
    int length() {
        if (c.chance(1, 400)) {
            c.label("very long program");
            return 1 + static_cast<int>(c.below(400));
        }
        return 1 + static_cast<int>(c.below(w.max_ops));
    }

    // one random operation
    bool step() {
        touched = -1;
        if (vars.empty()) { new_indep(); return true; }
        switch (c.weighted({w.binary, w.indep, w.inplace, w.constant, w.neg, w.scalar, w.fun, w.inplace_scalar, w.copy, w.custom, w.nary, w.change_nom, w.observe})) {
        case 0: return op_binary();
        case 1: new_indep(); return true;
        case 2: return op_inplace();
        case 3: return op_constant();
        case 4: return op_neg();
        case 5: return op_scalar();
        case 6: return op_fun();
        case 7: return op_inplace_scalar();
        case 8: return op_copy();
        case 9: return op_custom();
        case 10: return op_nary();
        case 11: return op_change_nom();
        default: return op_observe();
        }
    }

    bool op_binary() {
        const int i = pick();
        const int j = c.chance(1, 6) ? i : pick();
        const int k = static_cast<int>(c.below(4));
        if (!division_ok(k, vars[j].m)) return false;
        const M m = model_binary(k, vars[i].m, vars[j].m);
        if (!acceptable(m)) return false;
        note_binary(i, j);
        const int cat = category(n_cat2);
        const U u = lib_binary(k, vars[i].u, vars[j].u, cat);
        store(u, m);
        NOTE(c, "v" << touched << " = v" << i << " " << opname(k) << " v" << j << (cat ? ", value categories " + std::to_string(cat) : std::string()));
        return true;
    }

    void note_binary(int i, int j) {
        ++binary_ops;
        if (i == j) { ++alias_ops; c.label("operands are the same variable"); }
        const M &a = vars[i].m, &b = vars[j].m;
        for (int x : a.support) if (b.support.count(x)) { ++shared_ops; c.label("operands share an independent variable"); break; }
        if (a.support.size() > 1 && b.support.size() > 1) c.label("both operands dependent");
        if (a.support.empty() != b.support.empty()) c.label("one operand exact");
    }

    bool op_inplace() {
        const int i = pick();
        const int j = c.chance(1, 4) ? i : pick();
        const int k = static_cast<int>(c.below(4));
        if (!division_ok(k, vars[j].m)) return false;
        const M m = model_binary(k, vars[i].m, vars[j].m);
        if (!acceptable(m)) return false;
        note_binary(i, j);
        ++inplace_ops;
        if (i == j) c.label("in-place with itself");
        const bool was_dep = vars[i].m.support.size() > 1;
        if (was_dep) c.label("in-place on a dependent variable");
        const bool temp = category(2);
        NOTE(c, "v" << i << " " << opname(k) << "= " << (temp ? "copy of v" : "v") << j);
        U &t = vars[i].u;
        const U &a = vars[j].u;
        const U *ret = nullptr;
        switch (k) {
        case 0: ret = temp ? &(t += U(a)) : &(t += a); break;
        case 1: ret = temp ? &(t -= U(a)) : &(t -= a); break;
        case 2: ret = temp ? &(t *= U(a)) : &(t *= a); break;
        default: ret = temp ? &(t /= U(a)) : &(t /= a); break;
        }
        CHECK_THAT(c, ret == &t, "the in-place operator does not return its target");
        vars[i].m = m;
        touched = i;
        return true;
    }

    bool op_inplace_scalar() {
        const int i = pick();
        const int k = static_cast<int>(c.below(4));
        const Real x = c.chance(1, 3) ? Real(1) : number(2, k != 3);
        if (k == 3 && x == 0) return false;
        M b;
        b.n = E(N::ref(x));
        const M m = model_binary(k, vars[i].m, b);
        if (!acceptable(m)) return false;
        ++inplace_ops;
        NOTE(c, "v" << i << " " << opname(k) << "= " << x);
        U &t = vars[i].u;
        switch (k) {
        case 0: t += x; break;
        case 1: t -= x; break;
        case 2: t *= x; break;
        default: t /= x; break;
        }
        vars[i].m = m;
        touched = i;
        return true;
    }

    bool op_constant() {
        const Real x = number();
        M m;
        m.n = E(N::ref(x));
        store(U(x), m);
        NOTE(c, "v" << touched << " = " << x);
        return true;
    }

    bool op_neg() {
        const int i = pick();
        const bool neg = !c.chance(1, 4);
        M m = vars[i].m;
        if (neg) {
            m.n = -m.n;
            for (auto &x : m.c) x = -x;
        }
        const int cat = category(n_cat1);
        const U u = neg ? cat1(cat, vars[i].u, [](auto &&x) { return U(-FWD(x)); }) : cat1(cat, vars[i].u, [](auto &&x) { return U(+FWD(x)); });
        store(u, m);
        NOTE(c, "v" << touched << " = " << (neg ? "-" : "+") << "v" << i);
        return true;
    }

    bool op_scalar() {
        const int i = pick();
        const int k = static_cast<int>(c.below(4));
        const Real x = c.chance(1, 5) ? Real(c.range(-1, 1)) : number(2);
        const bool left = c.chance(1, 2);
        M b;
        b.n = E(N::ref(x));
        if (!division_ok(k, left ? vars[i].m : b)) return false;
        const M m = left ? model_binary(k, b, vars[i].m) : model_binary(k, vars[i].m, b);
        if (!acceptable(m)) return false;
        const U &a = vars[i].u;
        const int cat = category(n_cat1);
        U u;
        switch (k) {
        case 0: u = cat1(cat, a, [&](auto &&y) { return U(left ? x + FWD(y) : FWD(y) + x); }); break;
        case 1: u = cat1(cat, a, [&](auto &&y) { return U(left ? x - FWD(y) : FWD(y) - x); }); break;
        case 2: u = cat1(cat, a, [&](auto &&y) { return U(left ? x * FWD(y) : FWD(y) * x); }); break;
        default: u = cat1(cat, a, [&](auto &&y) { return U(left ? x / FWD(y) : FWD(y) / x); }); break;
        }
        store(u, m);
        if (left) NOTE(c, "v" << touched << " = " << x << " " << opname(k) << " v" << i);
        else NOTE(c, "v" << touched << " = v" << i << " " << opname(k) << " " << x);
        return true;
    }

    template<typename T = Real>
    typename std::enable_if<Num<T>::functions, bool>::type op_fun() {
        const int i = pick();
        const M &a = vars[i].m;
        const int k = static_cast<int>(c.below(7));
        E n, d;
        switch (k) {
        case 0: n = exp(a.n); d = n; break;
        case 1: if (!(a.n.v > Ref(1e-3))) return false; n = log(a.n); d = E(1) / a.n; break;
        case 2: n = sin(a.n); d = cos(a.n); break;
        case 3: n = cos(a.n); d = -sin(a.n); break;
        case 4: if (!(a.n.v > Ref(1e-3))) return false; n = sqrt(a.n); d = E(1) / (E(2) * n); break;
        case 5: n = atan(a.n); d = E(1) / (E(1) + a.n * a.n); break;
        case 6: n = tanh(a.n); d = E(1) - n * n; break;
        }
        if (rabs(a.n.v) > Ref(30)) return false;
        const M m = combine<Real>(n, {{&a, d}});
        if (!acceptable(m)) return false;
        const U &x = vars[i].u;
        const bool temp = category(2);
        U u;
        switch (k) {
        case 0: u = temp ? unc::exp(U(x)) : unc::exp(x); break;
        case 1: u = temp ? unc::log(U(x)) : unc::log(x); break;
        case 2: u = temp ? unc::sin(U(x)) : unc::sin(x); break;
        case 3: u = temp ? unc::cos(U(x)) : unc::cos(x); break;
        case 4: u = temp ? unc::sqrt(U(x)) : unc::sqrt(x); break;
        case 5: u = temp ? unc::atan(U(x)) : unc::atan(x); break;
        case 6: u = temp ? unc::tanh(U(x)) : unc::tanh(x); break;
        }
        static const char *names[] = {"exp", "log", "sin", "cos", "sqrt", "atan", "tanh"};
        store(u, m);
        c.label("mathematical function");
        NOTE(c, "v" << touched << " = " << names[k] << "(v" << i << ")");
        return true;
    }
    template<typename T = Real>
    typename std::enable_if<!Num<T>::functions, bool>::type op_fun() { return false; }

    bool op_copy() {
        const int i = pick();
        const M m = vars[i].m;
        switch (c.below(3)) {
        case 0: { U u(vars[i].u); store(u, m); NOTE(c, "v" << touched << " = copy of v" << i); break; }
        case 1: { // move out of a copy
            U u(vars[i].u);
            U z(std::move(u));
            store(z, m);
            NOTE(c, "v" << touched << " = moved copy of v" << i);
            break;
        }
        case 2: {
            const int j = pick();
            using std::swap;
            if (i != j) { swap(vars[i].u, vars[j].u); swap(vars[i].m, vars[j].m); }
            NOTE(c, "swap(v" << i << ", v" << j << ")");
            touched = j;
        }
        }
        return true;
    }

    bool op_custom() {
        const int i = pick();
        const Real mu = number(), d1 = number(1), d2 = number(1);
        if (c.chance(1, 2)) {
            const M m = combine<Real>(E(N::ref(mu)), {{&vars[i].m, E(N::ref(d1))}});
            if (!acceptable(m)) return false;
            store(cat1(category(n_cat1), vars[i].u, [&](auto &&x) { return U(unary(FWD(x), mu, d1)); }), m);
            NOTE(c, "v" << touched << " = unary(v" << i << ", " << mu << ", " << d1 << ")");
        } else {
            const int j = c.chance(1, 6) ? i : pick();
            const M m = combine<Real>(E(N::ref(mu)), {{&vars[i].m, E(N::ref(d1))}, {&vars[j].m, E(N::ref(d2))}});
            if (!acceptable(m)) return false;
            if (w.inplace && c.chance(1, 2)) {
                // the member version
                U &t = vars[i].u;
                const U &x = vars[j].u;
                t.binary_assign(x, mu, d1, d2);
                vars[i].m = m;
                touched = i;
                NOTE(c, "v" << i << ".binary_assign(v" << j << ", " << mu << ", " << d1 << ", " << d2 << ")");
            } else {
                note_binary(i, j);
                store(cat2(category(n_cat2), vars[i].u, vars[j].u, [&](auto &&x, auto &&y) { return U(binary(FWD(x), FWD(y), mu, d1, d2)); }), m);
                NOTE(c, "v" << touched << " = binary(v" << i << ", v" << j << ", " << mu << ", " << d1 << ", " << d2 << ")");
            }
        }
        return true;
    }

    bool op_nary() {
        const int k = static_cast<int>(c.below(5));
        const Real mu = number();
        std::vector<U> x;
        std::vector<Real> d;
        M m;
        m.n = E(N::ref(mu));
        std::string s;
        for (int q = 0; q < k; ++q) {
            const int i = pick();
            const Real dx = number(1);
            x.push_back(vars[i].u);
            d.push_back(dx);
            M t = combine<Real>(m.n, {{&m, E(1)}, {&vars[i].m, E(N::ref(dx))}});
            m = t;
            if (c.verbose) { std::ostringstream ss; ss << " " << dx << "*v" << i; s += ss.str(); }
        }
        m.n = E(N::ref(mu));
        if (!acceptable(m)) return false;
        store(nary(x.begin(), x.end(), mu, d.begin()), m);
        c.label("nary");
        NOTE(c, "v" << touched << " = nary(mean " << mu << ", coefficients" << s << ")");
        return true;
    }

    bool op_change_nom() {
        const int i = pick();
        const Real mu = number();
        M m = vars[i].m;
        m.n = E(N::ref(mu));
        store(cat1(category(n_cat1), vars[i].u, [&](auto &&x) { return U(change_nom(FWD(x), mu)); }), m);
        NOTE(c, "v" << touched << " = change_nom(v" << i << ", " << mu << ")");
        return true;
    }

    template<typename T = Real>
    typename std::enable_if<!Num<T>::exact, bool>::type op_observe() {
        const int i = pick();
        U &u = vars[i].u;
        switch (c.below(4)) {
        case 0: NOTE(c, "v" << i << ".s()"); (void) u.s(); break;
        case 1: NOTE(c, "var(v" << i << ")"); (void) var(u); break;
        case 2: NOTE(c, "sdev(v" << i << ")"); (void) unc::sdev(u); break;
        case 3: { const int j = pick(); NOTE(c, "corr(v" << i << ", v" << j << ")"); (void) corr(u, vars[j].u); break; }
        }
        c.label("observer called during the computation");
        touched = i;
        return true;
    }
    template<typename T = Real>
    typename std::enable_if<Num<T>::exact, bool>::type op_observe() {
        const int i = pick();
        (void) cov(vars[i].u, vars[i].u);
        touched = i;
        return true;
    }

    // ------------------------------------------------------------------ checks

    std::string num(const Ref &x) { std::ostringstream ss; ss.precision(25); ss << x; return ss.str(); }

    void expect(const Real &lib, const E &ref, const std::string &what, int i) {
        const Ref x = N::ref(lib);
        if (!near(x, ref)) {
            FAIL(c, what << " of v" << i << " is " << num(x) << ", expected " << num(ref.v) << " +- " << num(ref.e));
        }
    }

    void check_mean(int i) { expect(vars[i].u.n(), vars[i].m.n, "the mean", i); expect(unc::nom(vars[i].u), vars[i].m.n, "nom()", i); }

    template<typename T = Real>
    typename std::enable_if<!Num<T>::exact>::type check_sdev(int i) {
        const U &u = vars[i].u;
        const E v = mcov(vars[i].m, vars[i].m);
        expect(u.s(), sqrt(v), "the standard deviation", i);
        expect(unc::sdev(u), sqrt(v), "sdev()", i);
    }
    template<typename T = Real>
    typename std::enable_if<Num<T>::exact>::type check_sdev(int) {}

    void check_var(int i) {
        const U &u = vars[i].u;
        const E v = mcov(vars[i].m, vars[i].m);
        expect(cov(u, u), v, "cov(x, x)", i);
        if (!N::exact) expect(var(u), v, "the variance", i);
    }

    // covariance with each independent variable, i.e. all the derivatives
    void check_coefs(int i) {
        for (std::size_t k = 0; k < probe.size(); ++k) {
            const E e = vars[i].m.support.count(static_cast<int>(k)) ? vars[i].m.coef(k) * E(N::ref(probe_s[k])) : E(0);
            const Real x = (k & 1) ? cov(vars[i].u, probe[k]) : cov(probe[k], vars[i].u);
            if (!near(N::ref(x), e)) {
                FAIL(c, "the covariance of v" << i << " with x" << k << " is " << num(N::ref(x)) << ", expected " << num(e.v) << " +- " << num(e.e));
            }
        }
    }

    void check_pair(int i, int j) {
        const Real x = cov(vars[i].u, vars[j].u);
        const E e = mcov(vars[i].m, vars[j].m);
        if (!near(N::ref(x), e)) {
            FAIL(c, "the covariance of v" << i << " and v" << j << " is " << num(N::ref(x)) << ", expected " << num(e.v) << " +- " << num(e.e));
        }
    }

    void check_all(int i) {
        check_mean(i);
        check_sdev(i);
        check_var(i);
        check_coefs(i);
    }

    int nonzero(const M &m) {
        int k = 0;
        for (std::size_t q = 0; q < m.c.size(); ++q) if (m.support.count(static_cast<int>(q)) && rabs(m.c[q].v) > m.c[q].e) ++k;
        return k;
    }
    int dependent_vars() {
        int k = 0;
        for (auto &v : vars) if (nonzero(v.m) > 1) ++k;
        return k;
    }
};

#endif
