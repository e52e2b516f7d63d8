"""C28: random programs made of random headers in random orders, split in random
translation units, with random options, compilers and language standards; what
they print is compared with the same features compiled in one translation unit
with the headers in the order of the documentation."""
import concurrent.futures
import json
import math
import os
import random
import shutil
import subprocess
import time

ALL = ['core', 'ureal', 'ureal2', 'math', 'functions', 'io', 'stat', 'ureals', 'distr']
NEEDS_EIGEN = {'ureal2', 'ureals'}

# name -> (headers needed, body). `out(tag, number)` and `txt(tag, string)`
# record what is compared; D[] are random numbers given at run time.
PROBES = {
    'core': (['core'], r'''
    out("nom", unc::nom(D[0])); out("sdev", unc::sdev(D[0])); out("invalid", unc::invalid_id);
    check(unc::nom(D[0]) == D[0] && unc::sdev(D[0]) == 0 && unc::invalid_id < 0, "nom and sdev of a number");
'''),
    'ureal': (['ureal'], r'''
    const unc::udouble x(D[0], D[1]), y(D[2], D[3]);
    unc::udouble z = x * y - y / x + 2.0;
    z += x; z *= 3.0;
    out("n", z.n()); out("s", z.s()); out("cov", cov(z, x)); out("corr", corr(z, y)); out("grad", z.grad(x));
    out("indep", x.isindep() + 2 * z.isindep()); out("nary", [&] { const unc::udouble v[] = {x, y, z}; const double g[] = {1, D[4], -2}; return nary(v, v + 3, 1.0, g).s(); }());
    out("unary", unary(x, 1.0, D[5]).s()); out("binary", binary(x, z, 1.0, D[5], D[4]).s()); out("change", change_nom(x, D[4]).n());
    const unc::ufloat f = x; out("float", unc::udouble(f).grad(x)); out("nomz", nom(z)); out("sdevz", sdev(z)); out("var", var(z));
    const unc::UReal<long double> l(1, 2); out("long double", double((l * l).s()));
    check(std::abs(double((l * l).s()) - 4) < 1e-12, "deviation of a square");
    try { unc::udouble bad(0, -1); out("throw", 0); } catch (const std::invalid_argument &) { out("throw", 1); }
'''),
    'ureal2': (['ureal2'], r'''
    const std::array<double, 6> m = {{0, 3, 0, 15, 0, 105}};
    const unc::udouble2e x(D[0], D[1], m), y(D[2], D[3], m, 1e-6);
    const unc::udouble2e z = x * y - y / x + 2.0;
    out("n", z.n()); out("s", z.s()); out("skew", z.skew()); out("kurt", z.kurt()); out("m3", z.m(3)); out("m4", z.m(4)); out("cov", cov(z, x)); out("corr", corr(z, y));
    out("grad", z.grad(x)); out("hess", z.hess(x, y)); out("first", z.first_order_n()); out("indep", x.isindep() + 2 * z.isindep());
    const unc::udouble2m w(z); out("mean", w.n()); out("back", unc::udouble2e(w).m(3)); out("var", var(z)); out("nomz", nom(z)); out("sdevz", sdev(z));
    const unc::UReal2<float, unc::Prop::mean> f(z); out("float mean", f.n());
    out("unary", unary(x, 1.0, D[4], D[5]).m(3)); out("binary", binary(x, y, 1.0, D[4], D[5], 1.0, 2.0, 3.0).m(4));
    check(std::abs(w.n() - (z.first_order_n() + (w.n() - z.first_order_n()))) < 1e-9 * (1 + std::abs(w.n())), "modes");
    try { unc::udouble2e bad(0, 1, std::array<double, 6>{{0, 0, 0, 0, 0, 0}}); out("throw", 0); } catch (const std::invalid_argument &) { out("throw", 1); }
'''),
    'math1': (['ureal', 'math'], r'''
    const unc::udouble x(D[0], D[1]), y(D[2], D[3]), u(0.3, 0.1);
    const unc::udouble r[] = {exp(x), log(x), sqrt(x), cbrt(x), sin(x), cos(x), tan(u), atan(x), asin(u), acos(u), sinh(u), cosh(u), tanh(u), asinh(x), acosh(1.0 + x), atanh(u),
        erf(u), erfc(u), pow(x, y), hypot(x, y), atan2(x, y), fmax(x, y), fmin(x, y), abs(-x), exp2(u), expm1(u), log10(x), log2(x), log1p(x), fmod(x, y), remainder(x, y)};
    int k = 0;
    for (const auto &a : r) { const std::string i = std::to_string(k++); out("n" + i, a.n()); out("s" + i, a.s()); }
    out("finite", isfinite(x) + 2 * isfinite(x / 0.0)); out("normal", isnormal(x));
    check(std::abs(exp(x).s() - std::exp(D[0]) * D[1]) < 1e-12 * std::exp(D[0]) * D[1], "exp");
'''),
    'math2': (['ureal2', 'math'], r'''
    const std::array<double, 6> m = {{1, 3, 6, 20, 40, 200}};
    const unc::udouble2e x(D[0], D[1], m, -1), y(D[2], D[3], m, -1), u(0.3, 0.1, m, -1);
    const unc::udouble2e r[] = {exp(x), log(x), sqrt(x), cbrt(x), sin(x), cos(x), tan(u), atan(x), asin(u), acos(u), sinh(u), cosh(u), tanh(u), asinh(x), acosh(1.0 + x), atanh(u),
        erf(u), erfc(u), pow(x, y), hypot(x, y), atan2(x, y), fmax(x, y), fmin(x, y), abs(-x), exp2(u), expm1(u), log10(x), log2(x), log1p(x), fmod(x, y), remainder(x, y)};
    int k = 0;
    for (const auto &a : r) { const std::string i = std::to_string(k++); out("n" + i, a.n()); out("m" + i, a.m(3)); }
    out("finite", isfinite(x)); out("normal", isnormal(exp(x)));
'''),
    'functions1': (['ureal', 'functions'], r'''
    const unc::udouble x(D[0], D[1]), y(D[2], D[3]);
    const auto f = unc::uunary<double>([](double a) { return a * a; }, [](double a) { return 2 * a; });
    const auto g = unc::ubinary<double>([](double a, double b) { return a * b; }, [](double, double b) { return b; }, [](double a, double) { return a; });
    const auto h = unc::uunary<double>([](double a) { return a * a * a; });
    const auto k = unc::ubinary<double>([](double a, double b) { return a * b * b; }, 1e-6);
    out("f", f(x).s()); out("g", g(x, y).s()); out("h", h(x).s()); out("k", k(x, y).s()); out("step", unc::default_step<double>(2));
    check(std::abs(f(x).s() - 2 * D[0] * D[1]) < 1e-12 * (1 + D[0] * D[1]), "derivative of a square");
'''),
    'functions2': (['ureal2', 'functions'], r'''
    const std::array<double, 6> m = {{0, 3, 0, 15, 0, 105}};
    const unc::udouble2e x(D[0], D[1], m), y(D[2], D[3], m);
    const auto f = unc::uunary2<double, unc::Prop::est>([](double a) { return a * a; }, [](double a) { return 2 * a; }, [](double) { return 2.0; });
    const auto f1 = unc::uunary2<double, unc::Prop::est>([](double a) { return a * a; }, [](double a) { return 2 * a; }, 1e-5);
    const auto f0 = unc::uunary2<double, unc::Prop::est>([](double a) { return a * a; });
    const auto g = unc::ubinary2<double, unc::Prop::est>([](double a, double b) { return a * b; }, [](double, double b) { return b; }, [](double a, double) { return a; });
    const auto g0 = unc::ubinary2<double, unc::Prop::est>([](double a, double b) { return a * b; }, 1e-3);
    out("f", f(x).m(3)); out("f1", f1(x).m(3)); near("f0", f0(x).hess(x, x)); out("g", g(x, y).m(4)); near("g0", g0(x, y).hess(x, y));
'''),
    'io1': (['ureal', 'io'], r'''
    const unc::udouble x(D[0], D[1]);
    std::ostringstream s; s << x << ' ' << unc::ufloat(2, 3);
    txt("stream", s.str()); txt("format", unc::format(x, 3.0f, " +- ")); txt("member", x.format(2)); txt("number", unc::format(12.5));
    txt("exp", unc::format(unc::udouble(123456789.0 * D[0], 1e7 * D[1]), 2, "+/-")); txt("exact", unc::udouble(3).format());
    check(unc::udouble(1, 0.12).format(2, "+-") == "1.00+-0.12", "text of 1 +- 0.12");
'''),
    'io2': (['ureal2', 'io'], r'''
    const std::array<double, 6> m = {{0, 3, 0, 15, 0, 105}};
    const unc::udouble2e x(D[0], D[1], m); const unc::udouble2m y(x * x);
    std::ostringstream s; s << x << ' ' << y;
    txt("stream", s.str()); txt("format", unc::format(y, 3.0f, " +- ")); txt("member", x.format(2));
'''),
    'stat0': (['stat'], r'''
    const std::vector<double> sigma = {D[0], D[1]}, co = {1, 0.5, 0.25, 1};
    const auto v = unc::corr2cov<std::vector<double>>(sigma, co);
    for (int i = 0; i < 4; ++i) out("cov" + std::to_string(i), v[i]);
    out("nom", unc::nom_vector<std::vector<double>>(sigma)[1]);
    check(std::abs(v[1] - D[0] * D[1] * 0.5) < 1e-12, "covariance from correlation");
'''),
    'stat1': (['ureal', 'stat'], r'''
    const unc::udouble a(D[0], D[1]), b(D[2], D[3]);
    const std::vector<unc::udouble> x = {a, a + b, a * b};
    const auto v = unc::cov_matrix<std::vector<double>>(x), r = unc::corr_matrix<std::vector<double>>(x);
    for (int i = 0; i < 9; ++i) { out("cov" + std::to_string(i), v[i]); out("corr" + std::to_string(i), r[i]); }
    std::vector<double> w(9); unc::cov_matrix(x.begin(), x.end(), w.begin()); out("it", w[5]); out("nom", unc::nom_vector<std::vector<double>>(x)[2]);
'''),
    'stat2': (['ureal2', 'stat'], r'''
    const std::array<double, 6> m = {{1, 3, 6, 20, 40, 200}};
    const unc::udouble2e a(D[0], D[1], m, -1), b(D[2], D[3], m, -1);
    const std::vector<unc::udouble2e> x = {a, a + b, a * b};
    const auto v = unc::cov_matrix<std::vector<double>>(x), r = unc::corr_matrix<std::vector<double>>(x);
    for (int i = 0; i < 9; ++i) { out("cov" + std::to_string(i), v[i]); out("corr" + std::to_string(i), r[i]); }
'''),
    'ureals': (['ureal', 'ureals'], r'''
    const std::vector<double> mu = {D[0], D[1], D[2]}, cv = {4, 1, 0.5, 1, 3, D[3] / 10, 0.5, D[3] / 10, 5};
    const auto x = unc::ureals<std::vector<unc::udouble>>(mu, cv);
    for (int i = 0; i < 3; ++i) { out("n" + std::to_string(i), x[i].n()); for (int j = 0; j < 3; ++j) out("cov" + std::to_string(3 * i + j), cov(x[i], x[j])); }
    check(std::abs(cov(x[0], x[1]) - 1) < 1e-12, "covariance asked for");
'''),
    # every kind of iterator and container that meets the documented requirements
    'kinds': (['ureal', 'stat'], r'''
    const unc::udouble a(D[0], D[1]), b(D[2], D[3]), x[] = {a, a + b, a * b};
    const std::list<unc::udouble> l(x, x + 3); std::list<unc::udouble> m(l); const std::deque<unc::udouble> q(x, x + 3); unc::udouble y[] = {x[0], x[1], x[2]};
    double p[11] = {0}, r[9]; p[9] = p[10] = 7;
    check(unc::cov_matrix(x, x + 3, p) == p + 9 && p[9] == 7 && p[10] == 7, "end of the output");
    unc::corr_matrix(y, y + 3, r);
    std::list<double> o; unc::cov_matrix(l.begin(), l.end(), std::back_inserter(o));
    std::deque<double> d(9); unc::corr_matrix(m.begin(), m.end(), d.rbegin());
    const auto cl = unc::cov_matrix<std::list<double>>(l); const auto cq = unc::corr_matrix<std::deque<double>>(q);
    auto io = o.begin(); auto il = cl.begin();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j, ++io, ++il) {
        const int k = 3 * i + j;
        check(p[k] == cov(x[i], x[j]) && *io == p[k] && *il == p[k], "covariance matrix through iterators");
        check(r[k] == corr(x[i], x[j]) && d[8 - k] == r[k] && cq[k] == r[k], "correlation matrix through iterators");
    }
    check(o.size() == 9 && cl.size() == 9, "size of the matrix");
    const std::list<double> sigma = {D[0], D[1]}, co = {1, 0.5, 0.25, 1};
    const auto v = unc::corr2cov<std::deque<double>>(sigma, co);
    check(std::abs(v[1] - D[0] * D[1] * 0.5) < 1e-12 && std::abs(v[2] - D[0] * D[1] * 0.25) < 1e-12, "covariance from correlation, lists");
    check(unc::nom_vector<std::list<double>>(q).back() == x[2].n(), "means in a list");
'''),
    'ureals2': (['ureal', 'ureals'], r'''
    struct Out { using value_type = unc::udouble; std::vector<unc::udouble> v; void push_back(const unc::udouble &x) { v.push_back(x); } };
    struct In { double a[4]; std::size_t n; std::size_t size() const { return n; } double operator[](std::size_t i) const { return a[i]; } };
    const std::deque<double> mu = {D[0], D[1]}; const std::array<double, 4> cv = {{4, 1, 1, D[2] + 1}};
    const auto l = unc::ureals<std::list<unc::udouble>>(mu, cv); const auto d = unc::ureals<std::deque<unc::udouble>>(std::vector<double>(mu.begin(), mu.end()), cv);
    const Out o = unc::ureals<Out>(In{{D[0], D[1]}, 2}, In{{4, 1, 1, D[2] + 1}, 4});
    const std::vector<unc::udouble> w[] = {{l.begin(), l.end()}, {d.begin(), d.end()}, o.v};
    for (const auto &x : w) check(x.size() == 2 && x[0].n() == D[0] && std::abs(cov(x[0], x[1]) - 1) < 1e-12 && std::abs(var(x[1]) - D[2] - 1) < 1e-12, "variables in a list, a deque, a sequence with push_back only");
'''),
    'distr': (['ureal2', 'distr'], r'''
    const auto x = unc::distr::normal<unc::udouble2e>(D[0], D[1]); const auto y = unc::distr::uniform<unc::udouble2m>(D[2], D[2] + D[3]); const auto z = unc::distr::chisquare<unc::udouble2e>(3);
    out("x", x.kurt()); out("y", (y * y).m(4)); out("z", z.skew()); out("zz", (z * x).m(3));
    check(std::abs(x.kurt() - 3) < 1e-9, "kurtosis of the normal");
'''),
}

PRELUDE = r'''
#include <cmath>
#include <cstdlib>
#include <deque>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <array>
extern double D[8];
void record(const std::string &probe, char kind, const std::string &tag, const std::string &value);
namespace unc = uncertainties;
namespace {
    std::string probe;
    std::string show(double x) { std::ostringstream s; s << std::setprecision(17) << x; return s.str(); }
    void out(const std::string &tag, double x) { record(probe, 'n', tag, show(x)); }
    void near(const std::string &tag, double x) { record(probe, 'r', tag, show(x)); }
    void txt(const std::string &tag, const std::string &x) { record(probe, 't', tag, x); }
    void check(bool ok, const std::string &what) { record(probe, 'c', what, ok ? "1" : "0"); }
    template<typename T> void unused(const T &) {}
}
'''

MAIN = r'''
#include <cstdlib>
#include <iostream>
#include <string>
double D[8];
void record(const std::string &probe, char kind, const std::string &tag, const std::string &value) {
    std::cout << kind << '\t' << probe << '\t' << tag << '\t' << value << '\n';
}
%(decl)s
int main(int argc, char **argv) {
    for (int i = 0; i < 8; ++i) D[i] = std::atof(argv[i + 1]);
    %(calls)s
    return 0;
}
'''

# variables made in one translation unit and used in another
GIVE1 = r'''
void give1_%(k)d(std::vector<unc::udouble> &v) {
    const unc::udouble x(D[%(k)d], D[%(k)d + 1]);
    v.push_back(x);
    v.push_back(v.front() * x - v.back());
}
'''
GIVE2 = r'''
void give2_%(k)d(std::vector<unc::udouble2e> &v) {
    const unc::udouble2e x(D[%(k)d], D[%(k)d + 1], std::array<double, 6>{{0, 3, 0, 15, 0, 105}});
    v.push_back(x);
    v.push_back(v.front() * x - v.back());
}
'''
TAKE1 = r'''
%(decl)s
void take1() {
    probe = "shared1";
    std::vector<unc::udouble> v = {unc::udouble(D[5], D[6])};
    %(calls)s
    for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j <= i; ++j) {
        out("cov " + std::to_string(i) + " " + std::to_string(j), cov(v[i], v[j]));
        if (i != j && v[i].isindep() && v[j].isindep()) check(v[i].indepid() != v[j].indepid() && v[i].indepid() > 0, "ids are different");
    }
}
'''
TAKE2 = r'''
%(decl)s
void take2() {
    probe = "shared2";
    std::vector<unc::udouble2e> v = {unc::udouble2e(D[5], D[6], std::array<double, 6>{{0, 3, 0, 15, 0, 105}})};
    %(calls)s
    for (std::size_t i = 0; i < v.size(); ++i) {
        out("m3 " + std::to_string(i), v[i].m(3));
        for (std::size_t j = 0; j <= i; ++j) {
            out("cov " + std::to_string(i) + " " + std::to_string(j), cov(v[i], v[j]));
            if (i != j && v[i].isindep() && v[j].isindep()) check(v[i].indepid() != v[j].indepid() && v[i].indepid() > 0, "ids are different");
        }
    }
}
'''


def probes_of(headers):
    h = set(headers)
    if 'impl' in h:
        h.add('core')
    return [p for p in PROBES if set(PROBES[p][0]) <= h]


def generate(rng):
    case = {
        'cxx': rng.choice(['g++', 'g++', 'clang++']),
        'std': rng.choice(['c++11', 'c++11', 'c++14', 'c++17', 'c++20', 'c++2b']),
        'opt': rng.choice(['-O0', '-O0', '-O0', '-O1']),
        'ndebug': rng.random() < 0.25,
        'extern1': rng.random() < 0.5,
        'extern2': rng.random() < 0.5,
        'numbers': ['%.6f' % rng.uniform(0.2, 3) for _ in range(8)],
    }
    n = rng.choice([1, 1, 2, 2, 3])
    tus = []
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 9, 9])
        h = rng.sample(ALL, k)
        if rng.random() < 0.2:
            h.insert(rng.randrange(len(h) + 1), rng.choice(h))
        tus.append({'headers': h, 'probes': []})
    # impl.hpp in one of them, or alone
    if rng.random() < 0.3:
        tus.append({'headers': ['impl'], 'probes': []})
        rng.shuffle(tus)
    else:
        t = rng.choice(tus)
        t['headers'].insert(rng.randrange(len(t['headers']) + 1), 'impl')
    for t in tus:
        p = probes_of(t['headers'])
        rng.shuffle(p)
        t['probes'] = p[:rng.choice([2, 3, 5])]
        t['std_first'] = rng.random() < 0.3
    case['tus'] = tus
    case['share'] = rng.random() < 0.6
    return case


def sources(case):
    files = {}
    decl, calls = [], []
    have = {1: [], 2: []}
    for k, t in enumerate(case['tus']):
        h = t['headers']
        inc = ''.join('#include <uncertainties/%s.hpp>\n' % x for x in h)
        prelude = PRELUDE
        src = inc + prelude
        if t.get('std_first'):
            std = ''.join(line + '\n' for line in prelude.splitlines() if line.startswith('#include'))
            src = std + src
        body = ''
        for p in t['probes']:
            body += 'static void probe_%s() {\n    probe = "%s";%s}\n' % (p, p, PROBES[p][1])
        body += 'void run_%d() {\n    %s\n    unused(probe);\n}\n' % (k, ' '.join('probe_%s();' % p for p in t['probes']))
        decl.append('void run_%d();' % k)
        calls.append('run_%d();' % k)
        if case.get('share'):
            if 'ureal' in h:
                have[1].append(k)
                body += GIVE1 % {'k': k}
            if 'ureal2' in h:
                have[2].append(k)
                body += GIVE2 % {'k': k}
        files['tu%d.cpp' % k] = src + body
    if case.get('share'):
        for order, take, typ in ((1, TAKE1, 'udouble'), (2, TAKE2, 'udouble2e')):
            ks = have[order]
            if not ks:
                continue
            files['tu%d.cpp' % ks[-1]] += take % {
                'decl': ' '.join('void give%d_%d(std::vector<unc::%s> &);' % (order, k, typ) for k in ks),
                'calls': ' '.join('give%d_%d(v);' % (order, k) for k in ks)}
            decl.append('void take%d();' % order)
            calls.append('take%d();' % order)
    files['main.cpp'] = MAIN % {'decl': '\n'.join(decl), 'calls': ' '.join(calls)}
    return files


def sh(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, 'timeout'


def flags(case, headers, repo):
    f = [case['cxx'], '-std=' + case['std'], case['opt'], '-w', '-I', repo]
    h = set(headers)
    # the documentation asks for Eigen only for some headers
    eigen = bool(h & NEEDS_EIGEN) or ('impl' in h and case['extern2'])
    if eigen:
        f += ['-isystem', '/usr/include/eigen3']
    if case['ndebug']:
        f.append('-DNDEBUG')
    if case['extern1']:
        f.append('-DUNCERTAINTIES_EXTERN_UDOUBLE')
    if case['extern2']:
        f.append('-DUNCERTAINTIES_EXTERN_UDOUBLE2')
    return f


def build_and_run(case, repo, d):
    """Returns (stage, text): ('ok', output) or the stage that failed."""
    os.makedirs(d, exist_ok=True)
    files = sources(case)
    objs = []
    for name, text in files.items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
        headers = case['tus'][int(name[2:-4])]['headers'] if name.startswith('tu') else []
        obj = name[:-4] + '.o'
        rc, out = sh(flags(case, headers, repo) + ['-c', name, '-o', obj], 300, d)
        if rc is None or rc < 0:
            return 'infra', out
        if rc != 0:
            return 'compile', '%s with #include %s\n%s' % (name, ', '.join(headers), out[:3000])
        objs.append(obj)
    rc, out = sh([case['cxx']] + objs + ['-o', 'run'], 300, d)
    if rc is None or rc < 0:
        return 'infra', out
    if rc != 0:
        return 'link', out[:3000]
    rc, out = sh(['./run'] + case['numbers'], 60, d)
    if rc != 0:
        return 'run', 'ended with %s\n%s' % (rc, out[-1500:])
    return 'ok', out


BASE = {'cxx': 'g++', 'std': 'c++11', 'opt': '-O0', 'ndebug': False, 'extern1': False, 'extern2': False, 'share': False,
        'tus': [{'headers': ['impl'] + ALL, 'probes': list(PROBES)}]}


def parse(out):
    r = []
    for line in out.splitlines():
        f = line.split('\t')
        if len(f) == 4:
            r.append(f)
    return r


def compare(case, out, base):
    """Difference between what a program printed and the baseline, or None."""
    want = {}
    for kind, probe, tag, value in parse(base):
        want.setdefault((probe, tag), (kind, value))
    seen = set()
    for kind, probe, tag, value in parse(out):
        seen.add(probe)
        if kind == 'c':
            if value != '1':
                return 'feature %s: wrong: %s' % (probe, tag)
            continue
        if probe.startswith('shared'):
            continue
        if (probe, tag) not in want:
            return 'feature %s: unexpected %s' % (probe, tag)
        w = want[probe, tag][1]
        if kind == 't':
            if w != value:
                return 'feature %s: %s is %r instead of %r' % (probe, tag, value, w)
        else:
            a, b = float(value), float(w)
            tol = 1e-9 if kind == 'n' else 1e-2
            if not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(abs(a), abs(b), 1e-3)):
                return 'feature %s: %s is %s instead of %s' % (probe, tag, value, w)
    expect = set(p for t in case['tus'] for p in t['probes'])
    if not expect <= seen:
        return 'features that printed nothing: %s' % ', '.join(sorted(expect - seen))
    # what the translation units shared
    cov = {}
    for kind, probe, tag, value in parse(out):
        if probe.startswith('shared') and tag.startswith('cov'):
            _, i, j = tag.split()
            cov[probe, int(i), int(j)] = float(value)
    return shared(case, cov)


def shared(case, cov):
    """Covariances of the variables given by the translation units, recomputed
    here: first order exactly, second order only for the independent ones."""
    D = [float(x) for x in case['numbers']]
    if not case.get('share'):
        return None
    for order, name in ((1, 'ureal'), (2, 'ureal2')):
        ks = [k for k, t in enumerate(case['tus']) if name in t['headers']]
        if not ks:
            continue
        # variables as (mean, gradient over independent ones)
        v = [(D[5], {-1: D[6]})]
        for k in ks:
            x = (D[k], {k: D[k + 1]})
            v.append(x)
            a, b = v[0], v[-1]
            g = {}
            for i in set(a[1]) | set(x[1]) | set(b[1]):
                g[i] = a[1].get(i, 0) * x[0] + x[1].get(i, 0) * a[0] - b[1].get(i, 0)
            v.append((a[0] * x[0] - b[0], g))
        for i in range(len(v)):
            for j in range(i + 1):
                if order == 2 and (i % 2 == 0 and i) and (j % 2 == 0 and j):
                    continue
                w = sum(v[i][1].get(k, 0) * v[j][1].get(k, 0) for k in v[i][1])
                got = cov.get(('shared%d' % order, i, j))
                if got is None:
                    return 'shared variables: covariance (%d, %d) was not printed' % (i, j)
                if abs(got - w) > 1e-9 * (1 + abs(w)):
                    return 'shared variables of order %d: covariance (%d, %d) is %r instead of %r' % (order, i, j, got, w)
    return None


def verdict(case, repo, d, base_exe):
    """None if the configuration works, else (stage, message)."""
    try:
        stage, out = build_and_run(case, repo, d)
        if stage == 'infra':
            return ('infra', out)
        if stage != 'ok':
            return (stage, '%s: %s' % ({'compile': 'does not compile', 'link': 'does not link', 'run': 'does not run'}[stage], out))
        rc, base = sh([base_exe] + case['numbers'], 60)
        if rc != 0:
            return ('run', 'the program in one translation unit ended with %s: %s' % (rc, base[-500:]))
        diff = compare(case, out, base)
        return ('result', diff) if diff else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def describe(case):
    return '%s %s %s%s%s%s: %s' % (
        case['cxx'], case['std'], case['opt'], ' NDEBUG' if case['ndebug'] else '', ' EXTERN_UDOUBLE' if case['extern1'] else '', ' EXTERN_UDOUBLE2' if case['extern2'] else '',
        ' | '.join(' '.join(t['headers']) + ' [' + ' '.join(t['probes']) + ']' for t in case['tus']))


def simplify(case):
    """Simpler configurations, most aggressive first."""
    def copy():
        return json.loads(json.dumps(case))
    for k in range(len(case['tus'])):
        if len(case['tus']) > 1:
            c = copy()
            t = c['tus'].pop(k)
            if 'impl' in t['headers']:
                c['tus'][0]['headers'].append('impl')
            yield c
    for key, val in (('share', False), ('ndebug', False), ('extern1', False), ('extern2', False), ('opt', '-O0'), ('cxx', 'g++'), ('std', 'c++11')):
        if case[key] != val:
            c = copy()
            c[key] = val
            yield c
    for k, t in enumerate(case['tus']):
        if t.get('std_first'):
            c = copy()
            c['tus'][k]['std_first'] = False
            yield c
        for i in range(len(t['probes'])):
            c = copy()
            c['tus'][k]['probes'].pop(i)
            yield c
        for i, h in enumerate(t['headers']):
            if h == 'impl':
                continue
            c = copy()
            c['tus'][k]['headers'].pop(i)
            left = c['tus'][k]['headers']
            c['tus'][k]['probes'] = [p for p in t['probes'] if p in probes_of(left)]
            if left:
                yield c


def shrink(case, fail, repo, d, base_exe):
    budget = 40
    t0 = time.time()
    progress = True
    while progress and budget > 0 and time.time() - t0 < 120:
        progress = False
        for c in simplify(case):
            budget -= 1
            if budget < 0 or time.time() - t0 > 120:
                break
            v = verdict(c, repo, d, base_exe)
            if v and v[0] == fail[0]:
                case, fail, progress = c, v, True
                break
    return case, fail


def baseline(repo, builddir):
    d = os.path.join(builddir, 'base')
    case = dict(BASE, numbers=['1'] * 8)
    stage, out = build_and_run(case, repo, d)
    return os.path.join(d, 'run'), stage, out


ABOUT = ('random subsets and orders of the headers in one to four translation units, one of them with impl.hpp at any place, compilers, language standards, '
         'options; the features of the included headers give what they give in one translation unit, and variables are shared between translation units; '
         'non-trivial: two or more headers besides impl.hpp and a feature used')


def run(prop, cfg, seed, tier, scale, repo, here, builddir):
    r = {'evaluations': 0, 'discarded': 0, 'distinct_nontrivial': 0, 'laws': [], 'samples': [], 'violations': [], 'errors': ''}
    exe, stage, out = baseline(repo, builddir)
    path = os.path.join(here, 'replays', 'C28-configurations.replay')

    def report(case, v):
        with open(path, 'w') as f:
            f.write('property: C28\nlaw: configurations\ncase: %s\n' % json.dumps(case))
            f.write('\n%s\n%s\n' % (describe(case), v[1]))
        r['violations'].append({'law': 'configurations', 'replay': path, 'message': describe(case) + '\n' + v[1]})

    if stage == 'infra':
        r['errors'] = 'the compiler could not be run: ' + out
        return r
    if stage != 'ok':
        report(dict(BASE, numbers=['1'] * 8), (stage, out))
        return r
    n = int((cfg['cases'] if tier == 'quick' else cfg['cases_thorough']) * scale)
    deadline = time.time() + (240 if tier == 'quick' else 4 * 3600)
    cases = [generate(random.Random('%d/%d' % (seed, i))) for i in range(n)]
    labels = {}
    distinct = set()
    failed = []

    def one(i):
        if time.time() > deadline or failed:
            return i, 'skipped'
        return i, verdict(cases[i], repo, os.path.join(builddir, 'case%d' % i), exe)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, v in ex.map(one, range(n)):
            case = cases[i]
            if v == 'skipped':
                continue
            if v and v[0] == 'infra':
                r['discarded'] += 1
                continue
            r['evaluations'] += 1
            heads = sum(len(set(t['headers']) - {'impl'}) for t in case['tus'])
            if heads >= 2 and any(t['probes'] for t in case['tus']):
                distinct.add(json.dumps(case, sort_keys=True))
            for lab in (case['cxx'], case['std'], '%d translation units' % len(case['tus'])):
                labels[lab] = labels.get(lab, 0) + 1
            if len(r['samples']) < 6:
                r['samples'].append({'law': 'configurations', 'case': describe(case)})
            if v and not failed:
                failed.append((case, v))
    for case, v in failed:
        again = verdict(case, repo, os.path.join(builddir, 'again'), exe)
        if not again or again[0] == 'infra':
            r['errors'] = 'a failure did not repeat: ' + v[1]
            continue
        report(*shrink(case, again, repo, os.path.join(builddir, 'shrink'), exe))
    r['distinct_nontrivial'] = len(distinct)
    r['laws'] = [{'law': 'configurations', 'about': ABOUT, 'evaluations': r['evaluations'], 'discarded': r['discarded'], 'nontrivial': len(distinct), 'labels': labels}]
    return r


def replay(path, repo, here):
    case = None
    for line in open(path):
        if line.startswith('case: '):
            case = json.loads(line[6:])
    d = os.path.join(here, 'build', 'C28-replay')
    os.makedirs(d, exist_ok=True)
    try:
        exe, stage, out = baseline(repo, d)
        v = (stage, out) if stage != 'ok' else verdict(case, repo, os.path.join(d, 'case'), exe)
    finally:
        pass
    print(describe(case))
    print('fails: ' + v[1] if v else 'holds')
    shutil.rmtree(d, ignore_errors=True)
    return 1 if v else 0
