// C11: covariance of second order variables.
#include "../lib/second.hpp"
#include "../lib/wide.hpp"

using Ref = long double;

// covariance of two quadratic forms, and how far a direct computation may be
static void exact_cov(const std::vector<Discrete> &d, const Quadratic &a, const Quadratic &b, Ref eps, Ref &cov, Ref &err) {
    Ref ma = 0, mb = 0, mab = 0, S = 0, dS = 0;
    enumerate(d, [&](const std::vector<Ref> &z, Ref p) {
        const Ref x = a.value(z), y = b.value(z);
        ma += p * x; mb += p * y; mab += p * x * y;
        const Ref sx = a.size(z), sy = b.size(z);
        S += p * sx * sy;
        dS += p * ((sx + a.err(z)) * (sy + b.err(z)) - sx * sy);
    });
    // the product of the means of the sizes is not bounded by S: compute it
    Ref A = 0, B = 0, eA = 0, eB = 0;
    enumerate(d, [&](const std::vector<Ref> &z, Ref p) { A += p * a.size(z); B += p * b.size(z); eA += p * a.err(z); eB += p * b.err(z); });
    cov = mab - ma * mb;
    err = 4 * (dS + (A + eA) * (B + eB) - A * B + 200 * eps * (S + A * B));
}

template<typename U>
static void run(pbt::Case &c, const Weights2 &w) {
    // long double is compared to the precision of double
    const bool single = std::is_same<typename U::real_type, float>::value;
    const Ref eps = single ? Num<float>::eps() : Num<double>::eps(), well = single ? 1e-3L : 1e-6L, tiny = single ? 1e-30L : 0;
    Setup<U> s;
    if (single) { s.eps = eps; s.tiny = Num<float>::tiny(); }
    s.generate(c, w, 4);
    const std::size_t n = s.v.size(), from = n > 4 ? n - 4 : 0;
    std::vector<std::size_t> idx;
    for (std::size_t k = from; k < n; ++k) idx.push_back(k);
    if (from > 0) idx.push_back(0);
    for (std::size_t a : idx) {
        const Quadratic qa = s.quad(a);
        for (std::size_t b : idx) {
            if (b > a) continue;
            const Quadratic qb = s.quad(b);
            Ref want, err;
            exact_cov(s.dist, qa, qb, eps, want, err);
            err += tiny;
            const Ref lib = cov(s.v[a], s.v[b]), rev = cov(s.v[b], s.v[a]);
            CHECK_THAT(c, std::fabs(lib - want) <= err, "cov(v" << a << ", v" << b << ") is " << lib << ", expected " << want << " +- " << err);
            CHECK_THAT(c, std::fabs(rev - lib) <= err, "cov(v" << a << ", v" << b << ") is " << lib << " but cov(v" << b << ", v" << a << ") is " << rev);
            const auto &ma = s.p.model[a], &mb = s.p.model[b];
            bool common = false;
            for (int i = 0; i < ma.n; ++i) common = common || (ma.in[i] && mb.in[i]);
            if (!common) CHECK_THAT(c, std::fabs(lib) <= 64 * eps * (std::fabs(s.v[a].m(1) * s.v[b].m(1))) + tiny, "the covariance of v" << a << " and v" << b << ", which have no variable in common, is " << lib);
            if (a == b) {
                CHECK_THAT(c, std::fabs(lib - var(s.v[a])) <= err, "cov(x, x) is " << lib << " but var(x) is " << var(s.v[a]));
                CHECK_THAT(c, std::fabs(lib - s.v[a].m(2)) <= err, "cov(x, x) is " << lib << " but m(2) is " << s.v[a].m(2));
            } else if (common && ma.has_hess() && mb.has_hess()) {
                c.nontrivial();
                if (ma.in != mb.in) c.label("partial overlap of the variables");
                if (ma.has_offdiag() && mb.has_offdiag()) c.label("both with mixed derivatives");
            }
            // correlation
            Ref va, vb, ea, eb;
            exact_cov(s.dist, qa, qa, eps, va, ea);
            exact_cov(s.dist, qb, qb, eps, vb, eb);
            if (va > (single ? 1e-12L : 0) && vb > (single ? 1e-12L : 0) && ea < well * va && eb < well * vb) {
                const Ref r = corr(s.v[a], s.v[b]);
                const Ref sd = std::sqrt(va * vb);
                const Ref tol = err / sd * 1.1L + (ea / va + eb / vb) + 16 * eps;
                CHECK_THAT(c, std::fabs(r - want / sd) <= tol, "corr(v" << a << ", v" << b << ") is " << r << ", expected " << want / sd << " +- " << tol);
                CHECK_THAT(c, std::fabs(r) <= 1 + tol, "corr(v" << a << ", v" << b << ") is " << r);
            }
        }
    }
}

LAW(programs, 24000, 600000, "random program on variables with random discrete distributions; cov (both orders), var, corr of the results against enumeration; non-trivial: two different results with a common variable and both with non-null hessian") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 4;
    if (c.chance(1, 2)) run<unc::udouble2e>(c, w); else run<unc::udouble2m>(c, w);
}
LAW(types, 12000, 300000, "the same with float and long double") {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 4;
    switch (c.range(0, 3)) {
    case 0: run<unc::UReal2<float, unc::Prop::est>>(c, w); break;
    case 1: run<unc::UReal2<float, unc::Prop::mean>>(c, w); break;
    case 2: run<unc::UReal2<long double, unc::Prop::est>>(c, w); break;
    default: run<unc::UReal2<long double, unc::Prop::mean>>(c, w); break;
    }
}

// bilinearity, as a metamorphic relation
template<typename U>
static void bilinear(pbt::Case &c) {
    Weights2 w;
    w.bound = 1e3;
    w.max_ind = 5;
    w.min_ind = 2;
    Setup<U> s;
    s.generate(c, w, 4);
    const auto &v = s.v;
    const std::size_t n = v.size();
    const std::size_t a = n - 1, b = c.below(n), d = c.below(n);
    const double p = gen_double(c, 1), q = gen_double(c, 1);
    NOTE(c, "cov(" << p << "*v" << a << " + " << q << "*v" << b << ", v" << d << ")");
    const U z = p * v[a] + q * v[b];
    const Ref l = cov(z, v[d]), r = Ref(p) * cov(v[a], v[d]) + Ref(q) * cov(v[b], v[d]);
    // scale of what may cancel
    auto scale = [&](std::size_t k) { Ref t = 0; const Quadratic f = s.quad(k); enumerate(s.dist, [&](const std::vector<Ref> &zz, Ref pr) { const Ref y = f.size(zz) + f.err(zz) * 1e12L; t += pr * y * y; }); return std::sqrt(t); };
    const Ref tol = 1000 * Num<double>::eps() * (std::fabs(p) * scale(a) + std::fabs(q) * scale(b)) * scale(d);
    CHECK_THAT(c, std::fabs(l - r) <= tol, "cov(p*x + q*y, z) is " << l << " but p*cov(x, z) + q*cov(y, z) is " << r << " (tolerance " << tol << ")");
    const auto &m = s.p.model[a];
    if (m.has_hess() && s.p.model[d].has_hess()) c.nontrivial();
}
LAW(bilinearity, 16000, 300000, "cov(p x + q y, z) = p cov(x, z) + q cov(y, z); non-trivial: x and z have non-null hessian") {
    if (c.chance(1, 2)) bilinear<unc::udouble2e>(c); else bilinear<unc::udouble2m>(c);
}

template<typename U>
static void groups(pbt::Case &c) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    const Ref eps = Num<double>::eps();
    Groups<U> s;
    s.generate(c, c.chance(1, 50) ? 60 : c.chance(1, 4) ? 12 : 4, 3, 4);
    std::vector<typename Groups<U>::Form> f {s.form(c, "y0"), s.form(c, "y1")};
    int common = 0;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        Ref want = 0, na = 0, nb = 0;
        for (std::size_t k = 0; k < s.group.size(); ++k) {
            const auto d = s.dist_of(static_cast<int>(k));
            Ref va, vb, ea, eb, v, e;
            exact_cov(d, f[a].q[k], f[a].q[k], eps, va, ea);
            exact_cov(d, f[b].q[k], f[b].q[k], eps, vb, eb);
            exact_cov(d, f[a].q[k], f[b].q[k], eps, v, e);
            want += v;
            na += std::sqrt(ea);
            nb += std::sqrt(eb);
            if (a != b && f[a].mixed && f[b].mixed && f[a].has[k] && f[b].has[k]) ++common;
        }
        const Ref tol = 4 * na * nb;
        const Ref lib = cov(f[a].sum, f[b].sum);
        CHECK_THAT(c, std::fabs(lib - want) <= tol, "cov(y" << a << ", y" << b << ") is " << lib << ", expected " << want << " +- " << tol);
    }
    // with a single variable, which may not be in the form
    const std::size_t g = c.below(s.group.size());
    const int j = static_cast<int>(c.below(s.group[g].size())), i = s.group[g][j];
    Quadratic q(static_cast<int>(s.group[g].size()));
    q.g[j] = s.sd[i];
    Ref want, err, v1, e1, v2, e2;
    const auto d = s.dist_of(static_cast<int>(g));
    exact_cov(d, f[0].q[g], q, eps, want, err);
    exact_cov(d, q, q, eps, v2, e2);
    Ref na = 0;
    for (std::size_t k = 0; k < s.group.size(); ++k) { exact_cov(s.dist_of(static_cast<int>(k)), f[0].q[k], f[0].q[k], eps, v1, e1); na += std::sqrt(e1); }
    for (const Ref lib : {Ref(cov(f[0].sum, s.x[i])), Ref(cov(s.x[i], f[0].sum))})
        CHECK_THAT(c, std::fabs(lib - want) <= 4 * na * std::sqrt(e2), "the covariance of y0 with x" << i << " is " << lib << ", expected " << want);
    if (common >= 4) c.nontrivial();
}
LAW(groups, 12000, 300000, "covariance of two sums of quadratic forms in disjoint groups of interleaved variables, up to 36 (rarely 180) in all: it is the sum of those of the groups; non-trivial: both with mixed terms and two or more groups in common") {
    if (c.chance(1, 2)) groups<unc::udouble2e>(c); else groups<unc::udouble2m>(c);
}

// any functions of many variables: two values each
template<typename U>
static void many(pbt::Case &c) {
    ErrEnv<Ref>::eps = Num<double>::eps();
    ErrEnv<Ref>::tiny = Num<double>::tiny();
    wide::Setup<U, true> s;
    std::vector<Discrete> dist;
    s.generate(c, 8, [&](int, double m, double sd) {
        dist.push_back(Discrete::random(c, 2));
        if (c.verbose) {
            c.notes << "with the standardized values";
            for (std::size_t k = 0; k < 2; ++k) c.notes << " " << dist.back().z[k] << " (probability " << dist.back().p[k] << ")";
            c.notes << ": ";
        }
        return U(m, sd, dist.back().mom, -1);
    });
    std::vector<std::size_t> idx {c.below(s.n)};
    for (std::size_t k = s.u.size() > static_cast<std::size_t>(s.n) + 3 ? s.u.size() - 3 : s.n; k < s.u.size(); ++k) idx.push_back(k);
    std::vector<Quadratic> qs;
    for (std::size_t k : idx) {
        Quadratic q(s.n);
        for (int i = 0; i < s.n; ++i) {
            const Ref si = s.u[i].s();
            q.g[i] = s.q[k].g[i] * si;
            for (int j = 0; j < s.n; ++j) q.H[i * s.n + j] = s.q[k].hess(i, j) * si * s.u[j].s() / 2;
        }
        qs.push_back(q);
    }
    for (std::size_t a = 0; a < idx.size(); ++a) for (std::size_t b = 0; b <= a; ++b) {
        Ref want, err;
        exact_cov(dist, qs[a], qs[b], Num<double>::eps(), want, err);
        const Ref lib = cov(s.u[idx[a]], s.u[idx[b]]), rev = cov(s.u[idx[b]], s.u[idx[a]]);
        CHECK_THAT(c, std::fabs(lib - want) <= 2 * err && std::fabs(rev - want) <= 2 * err, "cov(r" << idx[a] << ", r" << idx[b] << ") is " << lib << ", in the other order " << rev << ", expected " << want << " +- " << 2 * err);
        if (a != b && s.q[idx[a]].h.size() >= 6 && s.q[idx[b]].h.size() >= 6) c.nontrivial();
    }
    if (s.n >= 6) c.label("six or more variables");
}
LAW(many, 6000, 60000, "functions of up to 8 variables with integer derivatives, two values each: covariances against enumeration; non-trivial: two with six or more second derivatives each") {
    if (c.chance(1, 2)) many<unc::udouble2e>(c); else many<unc::udouble2m>(c);
}
