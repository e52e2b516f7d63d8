// C10: moments of second order variables are those of the quadratic expansion.
#include "../lib/second.hpp"
#include "../lib/wide.hpp"

using Ref = long double;

template<typename U>
static void run(pbt::Case &c, const Weights2 &w, int atoms) {
    // long double is compared to the precision of double
    const bool single = std::is_same<typename U::real_type, float>::value;
    const Ref eps = single ? Num<float>::eps() : Num<double>::eps(), well = single ? 1e-3L : 1e-6L, tiny = single ? 1e-30L : 0;
    Setup<U> s;
    if (single) { s.eps = eps; s.tiny = Num<float>::tiny(); }
    s.generate(c, w, atoms);
    const int sign = U::prop_mode == unc::Prop::est ? -1 : 1;
    std::size_t from = s.v.size() > 3 ? s.v.size() - 3 : 0;
    for (std::size_t k = from; k < s.v.size(); ++k) {
        const U &x = s.v[k];
        const auto &m = s.p.model[k];
        const Moments4 r = moments_of(s.dist, s.quad(k), eps);
        for (int n = 1; n <= 4; ++n) {
            const Ref lib = x.m(n);
            CHECK_THAT(c, std::fabs(lib - r.m[n]) <= r.e[n] + tiny, "m(" << n << ") of v" << k << " is " << lib << ", expected " << r.m[n] << " +- " << r.e[n]);
        }
        const Ref nn = x.n(), fo = x.first_order_n();
        CHECK_THAT(c, near<Ref>(fo, m.v), "first_order_n() of v" << k << " is " << fo << ", expected " << m.v.v);
        const Ref want = m.v.v + sign * r.m[1];
        CHECK_THAT(c, std::fabs(nn - want) <= r.e[1] + 2 * m.v.e + 4 * eps * std::fabs(want) + tiny, "n() of v" << k << " is " << nn << ", expected " << want);
        // derived quantities, where they are well conditioned
        if (r.m[2] > (single ? 1e-12L : 0) && r.e[2] < well * r.m[2]) {
            const Ref sd = std::sqrt(r.m[2]);
            const Ref rel = r.e[2] / r.m[2] + 8 * eps;
            CHECK_THAT(c, std::fabs(x.s() - sd) <= rel * sd, "s() of v" << k << " is " << x.s() << ", expected " << sd);
            CHECK_THAT(c, std::fabs(var(x) - r.m[2]) <= 2 * r.e[2] + 8 * eps * r.m[2], "var() of v" << k << " is " << var(x) << ", expected " << r.m[2]);
            const Ref sk = r.m[3] / (r.m[2] * sd), ku = r.m[4] / (r.m[2] * r.m[2]);
            CHECK_THAT(c, std::fabs(x.skew() - sk) <= r.e[3] / (r.m[2] * sd) * 1.1L + 4 * rel * std::fabs(sk), "skew() of v" << k << " is " << x.skew() << ", expected " << sk);
            CHECK_THAT(c, std::fabs(x.kurt() - ku) <= r.e[4] / (r.m[2] * r.m[2]) * 1.1L + 4 * rel * ku, "kurt() of v" << k << " is " << x.kurt() << ", expected " << ku);
            if (m.has_hess()) c.nontrivial();
            if (m.support() >= 3 && m.has_offdiag()) c.label("three or more variables with mixed derivatives");
            if (m.support() >= 4 && m.has_offdiag()) c.label("four or more variables with mixed derivatives");
        }
    }
}

LAW(programs, 40000, 600000, "random program on variables with random discrete distributions; m(1..4), n, s, var, skew, kurt of the last results against enumeration of all the outcomes of the quadratic expansion; non-trivial: non-null hessian and non-null variance") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 4;
    if (c.chance(1, 2)) run<unc::udouble2e>(c, w, 5); else run<unc::udouble2m>(c, w, 5);
}
LAW(types, 20000, 300000, "the same with float and long double") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 4;
    switch (c.range(0, 3)) {
    case 0: run<unc::UReal2<float, unc::Prop::est>>(c, w, 5); break;
    case 1: run<unc::UReal2<float, unc::Prop::mean>>(c, w, 5); break;
    case 2: run<unc::UReal2<long double, unc::Prop::est>>(c, w, 5); break;
    default: run<unc::UReal2<long double, unc::Prop::mean>>(c, w, 5); break;
    }
}

// A quadratic form with an arbitrary pattern of null and non-null
// coefficients, built as a sum of products.
template<typename U>
static void form(pbt::Case &c, int max_ind, int atoms) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    const Ref eps = Num<double>::eps();
    const int n = 2 + static_cast<int>(c.below(max_ind - 1));
    std::vector<Discrete> dist;
    std::vector<U> x;
    std::vector<double> sd;
    for (int i = 0; i < n; ++i) {
        dist.push_back(Discrete::random(c, atoms));
        sd.push_back(c.chance(1, 2) ? 1.0 : gen_uniform(c, 0.25, 3));
        std::array<double, 6> m = dist[i].mom;
        x.push_back(U(0, sd[i], m, -1));
        if (c.verbose) {
            c.notes << "x" << i << ": standard deviation " << sd[i] << ", standardized values";
            for (std::size_t k = 0; k < dist[i].z.size(); ++k) c.notes << " " << dist[i].z[k] << " (probability " << dist[i].p[k] << ")";
            c.notes << "\n";
        }
    }
    const int sparse = c.range(0, 3); // how sparse
    auto coef = [&]() { return c.chance(sparse, 4) ? 0.0 : c.chance(1, 2) ? double(c.range(-3, 3)) : gen_double(c, 0); };
    Quadratic q(n);
    U y(0);
    std::ostringstream ss;
    int off = 0;
    for (int i = 0; i < n; ++i) {
        const double g = coef();
        if (g != 0) { y = y + g * x[i]; ss << " + " << g << "*x" << i; }
        q.g[i] = Ref(g) * sd[i];
        q.ge[i] = 8 * eps * std::fabs(q.g[i]);
    }
    for (int i = 0; i < n; ++i) {
        for (int j = i; j < n; ++j) {
            const double h = coef();
            if (h == 0) continue;
            if (i != j) ++off;
            // the means are zero, so a product has no linear part
            y = y + h * (x[i] * x[j]);
            ss << " + " << h << "*x" << i << "*x" << j;
            const Ref t = Ref(h) * sd[i] * sd[j];
            if (i == j) q.H[i * n + i] += t;
            else { q.H[i * n + j] += t / 2; q.H[j * n + i] += t / 2; }
            q.He[i * n + j] += 8 * eps * std::fabs(t);
        }
    }
    NOTE(c, "y =" << ss.str());
    const Moments4 r = moments_of(dist, q, eps);
    for (int k = 1; k <= 4; ++k) {
        const Ref lib = y.m(k);
        CHECK_THAT(c, std::fabs(lib - r.m[k]) <= r.e[k], "m(" << k << ") is " << lib << ", expected " << r.m[k] << " +- " << r.e[k]);
    }
    if (off >= 1) c.nontrivial();
    if (n >= 4 && off >= 4) c.label("four or more variables, four or more mixed terms");
    if (n >= 5 && off >= 4) c.label("five or more variables, four or more mixed terms");
}

LAW(forms, 48000, 600000, "quadratic forms in 2 to 4 variables with any pattern of null coefficients, m(1..4) against enumeration; non-trivial: at least one mixed term") {
    if (c.chance(1, 2)) form<unc::udouble2e>(c, 4, 4); else form<unc::udouble2m>(c, 4, 4);
}
LAW(wide_forms, 10000, 200000, "quadratic forms in 2 to 6 variables (2 or 3 values each)") {
    if (c.chance(1, 2)) form<unc::udouble2e>(c, 6, 3); else form<unc::udouble2m>(c, 6, 3);
}

template<typename U>
static void groups(pbt::Case &c) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    const Ref eps = Num<double>::eps();
    Groups<U> s;
    s.generate(c, c.chance(1, 400) ? 20 : c.chance(1, 6) ? 10 : 4, 3, 4);
    const auto f = s.form(c, "y");
    static const Ref pow2[] = {1, 2, 4, 8, 16};
    Ref k1 = 0, k2 = 0, k3 = 0, k4 = 0, norm[5] = {};
    int used = 0;
    for (std::size_t k = 0; k < s.group.size(); ++k) {
        if (!f.has[k]) continue;
        used += static_cast<int>(s.group[k].size());
        const Moments4 m = moments_of(s.dist_of(static_cast<int>(k)), f.q[k], eps);
        k1 += m.m[1]; k2 += m.m[2]; k3 += m.m[3]; k4 += m.m[4] - 3 * m.m[2] * m.m[2];
        for (int q = 1; q <= 4; ++q) norm[q] += std::pow(m.e[q] / (pow2[q] * 400 * eps), Ref(1) / q);
    }
    const Ref want[] = {0, k1, k2, k3, k4 + 3 * k2 * k2};
    for (int q = 1; q <= 4; ++q) {
        const Ref tol = 4 * pow2[q] * 400 * eps * std::pow(norm[q], Ref(q));
        const Ref lib = f.sum.m(q);
        CHECK_THAT(c, std::fabs(lib - want[q]) <= tol, "m(" << q << ") is " << lib << ", expected " << want[q] << " +- " << tol);
    }
    if (used >= 5 && f.mixed >= 2) c.nontrivial();
    if (used >= 10) c.label("ten or more variables");
}
LAW(groups, 24000, 300000, "sums of quadratic forms in disjoint groups of interleaved variables, up to 30 (rarely 60) in all: the cumulants add up; non-trivial: five or more variables, two or more mixed terms") {
    if (c.chance(1, 2)) groups<unc::udouble2e>(c); else groups<unc::udouble2m>(c);
}

// any function of many variables: two values each
template<typename U>
static void many(pbt::Case &c) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    const Ref eps = Num<double>::eps();
    wide::Setup<U, true> s;
    std::vector<Discrete> dist;
    s.generate(c, 9, [&](int, double m, double sd) {
        dist.push_back(Discrete::random(c, 2));
        if (c.verbose) {
            c.notes << "with the standardized values";
            for (std::size_t k = 0; k < 2; ++k) c.notes << " " << dist.back().z[k] << " (probability " << dist.back().p[k] << ")";
            c.notes << ": ";
        }
        return U(m, sd, dist.back().mom, -1);
    });
    const std::size_t from = s.u.size() > static_cast<std::size_t>(s.n) + 2 ? s.u.size() - 2 : s.n;
    for (std::size_t k = from; k < s.u.size(); ++k) {
        Quadratic q(s.n);
        int mixed = 0;
        for (int i = 0; i < s.n; ++i) {
            const Ref si = s.u[i].s();
            q.g[i] = s.q[k].g[i] * si;
            for (int j = 0; j < s.n; ++j) {
                q.H[i * s.n + j] = s.q[k].hess(i, j) * si * s.u[j].s() / 2;
                if (j < i && q.H[i * s.n + j] != 0) ++mixed;
            }
        }
        const Moments4 r = moments_of(dist, q, eps);
        for (int m = 1; m <= 4; ++m) {
            const Ref lib = s.u[k].m(m);
            CHECK_THAT(c, std::fabs(lib - r.m[m]) <= 2 * r.e[m], "m(" << m << ") of r" << k << " is " << lib << ", expected " << r.m[m] << " +- " << 2 * r.e[m]);
        }
        if (mixed >= 6) c.nontrivial();
    }
    if (s.n >= 6) c.label("six or more variables");
}
LAW(many, 6000, 60000, "functions of up to 9 variables with integer derivatives, two values each, m(1..4) against enumeration; non-trivial: six or more mixed second derivatives") {
    if (c.chance(1, 2)) many<unc::udouble2e>(c); else many<unc::udouble2m>(c);
}
