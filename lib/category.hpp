// Value categories: an operation gives the same result whether its operands are
// named variables, temporaries, or variables moved from, also when the result is
// assigned to the operand moved from. An implementation which reuses the storage
// of temporaries must not show it.
#ifndef VERIF_CATEGORY_HPP
#define VERIF_CATEGORY_HPP

#include <utility>

constexpr int n_cat1 = 3, n_cat2 = 7;

// f is called with operands forwarded; cat 0 is the plain call
template<typename U, typename F>
U cat1(int cat, const U &x, F f) {
    switch (cat) {
    case 1: return f(U(x));
    case 2: { U t(x); t = f(std::move(t)); return t; }
    }
    return f(x);
}

template<typename U, typename F>
U cat2(int cat, const U &x, const U &y, F f) {
    switch (cat) {
    case 1: return f(U(x), y);
    case 2: return f(x, U(y));
    case 3: return f(U(x), U(y));
    case 4: { U t(x); t = f(std::move(t), y); return t; }
    case 5: { U t(y); t = f(x, std::move(t)); return t; }
    case 6: { const U s(x); U t(y); U r = f(std::move(s), std::move(t)); t = r; return t; }
    }
    return f(x, y);
}

#define FWD(x) std::forward<decltype(x)>(x)

#endif
