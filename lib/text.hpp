// text.hpp -- reading back what format() writes.
#ifndef TEXT_HPP
#define TEXT_HPP
#include "pbt.hpp"
#include <cmath>
#include <string>

namespace text {
using Q = __float128;

inline Q pow10q(int k) {
    Q r = 1, b = 10;
    for (unsigned n = k < 0 ? -k : k; n; n >>= 1, b *= b) if (n & 1) r *= b;
    return k < 0 ? 1 / r : r;
}
inline Q absq(Q x) { return x < 0 ? -x : x; }

// A decimal number as written: [-]digits[.digits]
struct Dec {
    bool neg = false;
    std::string digits; // without the dot
    int place = 0;      // exponent of the last digit
    bool ok = false;
    // significant digits: from the first nonzero one
    int sig() const {
        const auto p = digits.find_first_not_of('0');
        return p == std::string::npos ? 0 : static_cast<int>(digits.size() - p);
    }
    bool zero() const { return sig() == 0; }
    int lead() const { return place + sig() - 1; } // exponent of the first nonzero digit
    Q value() const {
        Q v = 0;
        for (char ch : digits) v = v * 10 + (ch - '0');
        v = place < 0 ? v / pow10q(-place) : v * pow10q(place);
        return neg ? -v : v;
    }
    // digits before the dot
    int before(int exponent) const { return static_cast<int>(digits.size()) + (place - exponent); }
};

inline Dec parse_dec(const std::string &s) {
    Dec d;
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') { d.neg = true; ++i; }
    bool dot = false;
    std::size_t before = 0;
    for (; i < s.size(); ++i) {
        if (s[i] == '.' && !dot) { dot = true; continue; }
        if (s[i] < '0' || s[i] > '9') return d;
        d.digits += s[i];
        if (dot) --d.place; else ++before;
    }
    // at least a digit on both sides of the dot
    d.ok = before > 0 && !(dot && d.place == 0);
    // no spurious zeros on the left
    if (before > 1 && d.digits[0] == '0') d.ok = false;
    return d;
}

// e+K or e-K, nothing else
inline bool parse_exp(const std::string &s, int &k) {
    if (s.size() < 3 || s[0] != 'e' || (s[1] != '+' && s[1] != '-') || s.size() > 7) return false;
    if (s[2] == '0') return false;
    k = 0;
    for (std::size_t i = 2; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return false;
        k = 10 * k + (s[i] - '0');
    }
    if (s[1] == '-') k = -k;
    return true;
}

// Mean and deviation with a common decimal exponent
struct Pair {
    bool ok = false, has_exp = false;
    int exp = 0;
    Dec mu, s; // the exponent is included in their places
};

inline Pair parse_pair(const std::string &t, const std::string &sep) {
    Pair p;
    std::string body = t;
    if (!t.empty() && t[0] == '(') {
        const auto q = t.rfind(")e");
        if (q == std::string::npos || !parse_exp(t.substr(q + 1), p.exp)) return p;
        p.has_exp = true;
        body = t.substr(1, q - 1);
    }
    const auto q = body.find(sep);
    if (q == std::string::npos) return p;
    p.mu = parse_dec(body.substr(0, q));
    p.s = parse_dec(body.substr(q + sep.size()));
    p.ok = p.mu.ok && p.s.ok && !p.s.neg;
    p.mu.place += p.exp;
    p.s.place += p.exp;
    return p;
}

// A number on its own: decimal with optional exponent, inf, nan
struct Single {
    bool ok = false, has_exp = false, neg = false, inf = false, nan = false;
    int exp = 0;
    Dec d;
};
inline Single parse_single(const std::string &t) {
    Single r;
    std::string b = t;
    if (!b.empty() && b[0] == '-' && !(b.size() > 1 && b[1] >= '0' && b[1] <= '9')) { r.neg = true; b = b.substr(1); }
    if (b == "inf") { r.inf = r.ok = true; return r; }
    if (b == "nan") { r.nan = r.ok = true; return r; }
    if (r.neg) return r;
    const auto e = b.find('e');
    if (e != std::string::npos) {
        if (!parse_exp(b.substr(e), r.exp)) return r;
        r.has_exp = true;
        b = b.substr(0, e);
    }
    r.d = parse_dec(b);
    r.neg = r.d.neg;
    r.d.place += r.exp;
    r.ok = r.d.ok;
    return r;
}

inline std::string show(Q x) {
    char b[64];
    snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(x));
    return b;
}
}
#endif
