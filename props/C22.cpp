// C22: function factories with numerical derivatives.
#include "../lib/factory.hpp"

using Ref = long double;
using E = Err<Ref>;

// a smooth function: polynomial of fourth degree plus a / (1 + (x - y)^2)
struct Smooth {
    double c[5][5] {};
    double a = 0;
    int degree = 0;
    static Smooth random(pbt::Case &cc, bool two) {
        Smooth s;
        s.degree = cc.range(0, 4);
        for (int i = 0; i <= s.degree; ++i) for (int j = 0; j <= (two ? s.degree - i : 0); ++j) s.c[i][j] = cc.chance(1, 3) ? 0 : cc.range(0, 16) / 4.0 - 2;
        if (cc.chance(1, 4)) s.a = cc.range(1, 8) / 4.0;
        return s;
    }
    template<typename T>
    T operator()(const T &x, const T &y) const {
        T r(0), px(1);
        for (int i = 0; i <= degree; ++i) {
            T py = px;
            for (int j = 0; j <= degree - i; ++j) {
                if (c[i][j] != 0) r = r + T(c[i][j]) * py;
                py = py * y;
            }
            px = px * x;
        }
        if (a != 0) { const T d = x - y; r = r + T(a) / (T(1) + d * d); }
        return r;
    }
    std::string show() const {
        std::ostringstream ss;
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (c[i][j] != 0) ss << (c[i][j] < 0 ? " " : " +") << c[i][j] << " x^" << i << " y^" << j;
        if (a != 0) ss << " + " << a << " / (1 + (x - y)^2)";
        return ss.str();
    }
};

template<typename Real>
static unc::Unary<Real> call1(const Smooth &s) { return [s](const Real &x) { return s(x, Real(0)); }; }
template<typename Real>
static unc::Binary<Real> call2(const Smooth &s) { return [s](const Real &x, const Real &y) { return s(x, y); }; }

// which factory: 0 all derivatives numerical, 1 first ones given
template<typename U> struct Make;
template<typename Real> struct Make<unc::UReal<Real>> {
    static constexpr int kinds = 1;
    static constexpr int order(int) { return 1; }
    static unc::UUnary<Real> one(int, const Smooth *s, const Real *step) {
        return step ? unc::uunary<Real>(call1<Real>(s[0]), *step) : unc::uunary<Real>(call1<Real>(s[0]));
    }
    static unc::UBinary<Real> two(int, const Smooth *s, const Real *step) {
        return step ? unc::ubinary<Real>(call2<Real>(s[0]), *step) : unc::ubinary<Real>(call2<Real>(s[0]));
    }
    static void ref1(int, const Smooth *s, E x, E h, E *d) {
        d[0] = s[0](x, E(0));
        d[1] = (s[0](x + h, E(0)) - d[0]) / h;
        d[2] = E(0);
    }
    static void ref2(int, const Smooth *s, E x, E y, E h, E *d) {
        d[0] = s[0](x, y);
        d[1] = (s[0](x + h, y) - d[0]) / h;
        d[2] = (s[0](x, y + h) - d[0]) / h;
        d[3] = d[4] = d[5] = E(0);
    }
};
template<typename Real, unc::Prop p> struct Make<unc::UReal2<Real, p>> {
    static constexpr int kinds = 2;
    static constexpr int order(int kind) { return kind == 0 ? 2 : 1; }
    static unc::UUnary2<Real, p> one(int kind, const Smooth *s, const Real *step) {
        if (kind == 0) return step ? unc::uunary2<Real, p>(call1<Real>(s[0]), *step) : unc::uunary2<Real, p>(call1<Real>(s[0]));
        return step ? unc::uunary2<Real, p>(call1<Real>(s[0]), call1<Real>(s[1]), *step) : unc::uunary2<Real, p>(call1<Real>(s[0]), call1<Real>(s[1]));
    }
    static unc::UBinary2<Real, p> two(int kind, const Smooth *s, const Real *step) {
        if (kind == 0) return step ? unc::ubinary2<Real, p>(call2<Real>(s[0]), *step) : unc::ubinary2<Real, p>(call2<Real>(s[0]));
        return step ? unc::ubinary2<Real, p>(call2<Real>(s[0]), call2<Real>(s[1]), call2<Real>(s[2]), *step) : unc::ubinary2<Real, p>(call2<Real>(s[0]), call2<Real>(s[1]), call2<Real>(s[2]));
    }
    static void ref1(int kind, const Smooth *s, E x, E h, E *d) {
        const E z(0), two(2);
        d[0] = s[0](x, z);
        if (kind == 0) {
            const E r = s[0](x + h, z), l = s[0](x - h, z);
            d[1] = (r - l) / (two * h);
            d[2] = (r + l - two * d[0]) / (h * h);
        } else {
            d[1] = s[1](x, z);
            d[2] = (s[1](x + h, z) - d[1]) / h;
        }
    }
    static void ref2(int kind, const Smooth *s, E x, E y, E h, E *d) {
        const E two(2), hh = h * h;
        const E f = s[0](x, y);
        d[0] = f;
        if (kind == 0) {
            auto F = [&](int i, int j) { return s[0](i == 0 ? x : i > 0 ? x + h : x - h, j == 0 ? y : j > 0 ? y + h : y - h); };
            const E p0 = F(1, 0), m0 = F(-1, 0), zp = F(0, 1), zm = F(0, -1);
            d[1] = (p0 - m0) / (two * h);
            d[2] = (zp - zm) / (two * h);
            d[3] = (p0 + m0 - two * f) / hh;
            d[4] = (zp + zm - two * f) / hh;
            d[5] = (F(1, 1) + F(-1, -1) - (p0 + m0 + zp + zm) + two * f) / (two * hh);
        } else {
            d[1] = s[1](x, y);
            d[2] = s[2](x, y);
            d[3] = (s[1](x + h, y) - d[1]) / h;
            d[4] = (s[2](x, y + h) - d[2]) / h;
            d[5] = (s[1](x, y + h) - d[1]) / h;
        }
    }
};

template<typename U>
static void run(pbt::Case &c) {
    using Real = typename U::real_type;
    Bench<U> b;
    b.generate(c, 3);
    const int calls = c.range(1, 4);
    const std::size_t n0 = b.p.ind.size();
    for (int q = 0; q < calls; ++q) {
        const int kind = c.range(0, Make<U>::kinds - 1);
        const bool two = c.chance(2, 3);
        Smooth s[3];
        for (int k = 0; k < (kind ? 3 : 1); ++k) s[k] = Smooth::random(c, two);
        Real step = 0;
        const bool given = c.chance(3, 4);
        if (given) {
            switch (c.range(0, 3)) {
            case 0: step = Real(c.pick({1.0, 0.5, 0.25, 2.0})); break;
            case 1: step = Real(gen_uniform(c, 0.05, 1)); break;
            case 2: step = Real(std::pow(10.0, -c.range(1, sizeof(Real) == 4 ? 2 : 4))); break;
            default: step = -Real(gen_uniform(c, 0.1, 1)); break; // a backward difference
            }
        } else {
            // documented: sqrt or fourth root of epsilon, according to the order
            Ref e = std::numeric_limits<Real>::epsilon();
            for (int k = 0; k < Make<U>::order(kind); ++k) e = std::sqrt(e);
            step = Real(e);
        }
        const E h = given ? E(Ref(step)) : E(Ref(step), Ref(4) * ErrEnv<Ref>::eps * Ref(step));
        const std::size_t i = b.pick(c), j = c.chance(1, 5) ? i : b.pick(c);
        if (rabs(b.m[i].v.v) > 50 || rabs(b.m[j].v.v) > 50 || !b.tame(b.m[i]) || !b.tame(b.m[j])) continue;
        std::ostringstream what;
        what << "f(v" << i;
        if (two) what << ", v" << j;
        what << "), f(x, y) =" << s[0].show();
        if (kind) { what << ", df/dx =" << s[1].show(); if (two) what << ", df/dy =" << s[2].show(); }
        what << ", step " << (given ? "" : "by default ") << step;
        E d[6];
        if (two) {
            const auto f = Make<U>::two(kind, s, given ? &step : nullptr);
            Make<U>::ref2(kind, s, b.m[i].v, b.m[j].v, h, d);
            const U r = f(b.v[i], b.v[j]);
            b.push(c, r, dual_binary<Ref>(b.m[i], b.m[j], d[0], d[1], d[2], d[3], d[4], d[5]), what.str());
        } else {
            const auto f = Make<U>::one(kind, s, given ? &step : nullptr);
            Make<U>::ref1(kind, s, b.m[i].v, h, d);
            const U r = f(b.v[i]);
            b.push(c, r, dual_unary<Ref>(b.m[i], d[0], d[1], d[2]), what.str());
        }
        c.label(given ? "step given" : "default step");
        c.label(kind ? "first derivatives given" : "all derivatives numerical");
        const auto &last = b.m.back();
        bool sharp = false; // is the formula visible above the rounding?
        for (std::size_t k = 0; k < n0; ++k) {
            if (IsSecond<U>::value) { for (std::size_t l = 0; l < n0; ++l) if (last.hess(k, l).e < Ref(1e-2) * rabs(last.hess(k, l).v)) sharp = true; }
            else if (last.g[k].e < Ref(1e-2) * rabs(last.g[k].v)) sharp = true;
        }
        if (sharp) c.nontrivial();
        if (!b.tame(last)) break;
    }
}

template<typename Real>
static void steps(pbt::Case &c) {
    const int k = c.range(0, 6);
    Ref e = std::numeric_limits<Real>::epsilon();
    for (int q = 0; q < k; ++q) e = std::sqrt(e);
    const Ref s = k == 1 && c.chance(1, 2) ? unc::default_step<Real>() : unc::default_step<Real>(k);
    NOTE(c, "default_step<" << Num<Real>::name() << ">(" << k << ")");
    c.nontrivial();
    CHECK_THAT(c, std::fabs(s - e) <= 8 * std::numeric_limits<Real>::epsilon() * e, "default_step(" << k << ") in " << Num<Real>::name() << " is " << s << " instead of " << e);
}

#define ABOUT " smooth functions (polynomials up to the fourth degree, optionally with a pole in the complex plane) and steps of 2 to 1e-4 or by default, applied to the results of random programs; the documented difference formulas evaluated in extended precision; non-trivial: the error bound is below 1% of a derivative that the formula gives"
LAW(first_order, 150000, 3000000, "uunary, ubinary:" ABOUT) {
    switch (c.range(0, 4)) {
    case 0: run<unc::UReal<float>>(c); break;
    case 1: run<unc::UReal<long double>>(c); break;
    default: run<unc::udouble>(c);
    }
}
LAW(second_order, 150000, 3000000, "uunary2, ubinary2, both modes:" ABOUT) {
    switch (c.range(0, 5)) {
    case 5: run<unc::UReal2E<long double>>(c); break;
    case 0: case 3: run<unc::udouble2e>(c); break;
    case 1: case 4: run<unc::udouble2m>(c); break;
    default: run<unc::UReal2M<float>>(c); break;
    }
}
LAW(default_steps, 200, 400, "default_step<Real>(k) is the 2^k-th root of epsilon") {
    switch (c.range(0, 2)) {
    case 0: steps<double>(c); break;
    case 1: steps<float>(c); break;
    default: steps<long double>(c); break;
    }
}
