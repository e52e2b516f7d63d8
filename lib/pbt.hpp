// pbt.hpp -- a small property-based testing engine.
//
// A "law" is a function of a `Case`. Every random decision the law takes is a
// bounded integer drawn from the case (`Case::draw`), so a case *is* its
// sequence of draws: it can be generated from (seed, law, index), recorded,
// shrunk (by shrinking the sequence, as Hypothesis does) and replayed from a
// file; under libFuzzer the draws are decoded from the fuzzer's bytes.
//
// A law reports by throwing: `Failure` is a violation, `Discard` a case that is
// out of the property's domain. Any other exception, a signal (abort from an
// assertion, segmentation fault, sanitizer report) or more than the law's
// limit of *CPU* time spent in one case is also a violation.
#ifndef PBT_HPP
#define PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};

struct Failure {
    std::string msg;
};

constexpr std::size_t kMaxDraws = 1 << 15;

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_str(const std::string &s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

class Case {
public:
    enum class Mode { random, replay, bytes };

    // random case
    Case(std::uint64_t seed, std::uint64_t *rec): mode_(Mode::random), rec_(rec), state_(seed) {}
    // replay of recorded draws
    Case(const std::vector<std::uint64_t> &draws, std::uint64_t *rec):
        mode_(Mode::replay), rec_(rec), replay_(draws) {}
    // fuzzer
    Case(const std::uint8_t *data, std::size_t size, std::uint64_t *rec):
        mode_(Mode::bytes), rec_(rec), data_(data), size_(size) {}

    bool verbose = false;

    // The only source of randomness: an integer in [0, max]. 0 is "simplest".
    std::uint64_t draw(std::uint64_t max) {
        if (n_ >= kMaxDraws) throw Discard{};
        std::uint64_t v = 0;
        switch (mode_) {
        case Mode::random:
            state_ += 0x9e3779b97f4a7c15ull;
            v = mix(state_);
            v = max == UINT64_MAX ? v : static_cast<std::uint64_t>(
                (static_cast<unsigned __int128>(v) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
            break;
        case Mode::replay:
            v = pos_ < replay_.size() ? replay_[pos_] : 0;
            ++pos_;
            if (v > max) v = max;
            break;
        case Mode::bytes: {
            std::uint64_t m = max;
            int shift = 0;
            while (m) {
                std::uint64_t b = pos_ < size_ ? data_[pos_] : 0;
                ++pos_;
                v |= b << shift;
                shift += 8;
                m >>= 8;
            }
            if (v > max) v %= max + 1;
            break;
        }
        }
        rec_[n_++] = v;
        return v;
    }

    std::uint64_t below(std::uint64_t n) { return draw(n - 1); }
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<std::uint64_t>(hi - lo))); }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    template<typename T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template<typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // index with the given weights; the first is simplest
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int r = static_cast<int>(below(total));
        int i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            ++i;
        }
        return 0;
    }

    void label(const std::string &s) { labels_[s] = true; }
    void nontrivial() { nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    const std::map<std::string, bool> &labels() const { return labels_; }
    std::size_t draws() const { return n_; }

    std::ostringstream notes;

    [[noreturn]] void fail(const std::string &msg) { throw Failure{msg}; }
    void require(bool cond, const std::string &msg) { if (!cond) fail(msg); }

private:
    Mode mode_;
    std::uint64_t *rec_;
    std::size_t n_ = 0;
    std::uint64_t state_ = 0;
    std::vector<std::uint64_t> replay_;
    std::size_t pos_ = 0;
    const std::uint8_t *data_ = nullptr;
    std::size_t size_ = 0;
    std::map<std::string, bool> labels_;
    bool nontrivial_ = false;
};

struct Law {
    std::string name;
    long quick, thorough;   // number of cases
    void (*fn)(Case &);
    std::string about;      // what it decides, and what makes a case non-trivial
    int cpu_limit;          // seconds of CPU per case
    bool nondet;            // outcome depends on thread scheduling
    bool multithread;       // run with a single worker
};

inline std::vector<Law> &laws() {
    static std::vector<Law> v;
    return v;
}

struct Register {
    Register(const char *name, long quick, long thorough, void (*fn)(Case &), const char *about,
             int cpu_limit = 30, bool nondet = false, bool multithread = false) {
        laws().push_back({name, quick, thorough, fn, about, cpu_limit, nondet, multithread});
    }
};

} // namespace pbt

#define NOTE(c, expr) do { if ((c).verbose) { (c).notes << expr << "\n"; } } while (0)
#define FAIL(c, expr) do { std::ostringstream pbt_ss; pbt_ss.precision(17); pbt_ss << expr; (c).fail(pbt_ss.str()); } while (0)
#define CHECK_THAT(c, cond, expr) do { if (!(cond)) FAIL(c, expr); } while (0)
#define LAW(name, quick, thorough, about) \
    static void law_##name(pbt::Case &c); \
    static pbt::Register reg_##name(#name, quick, thorough, law_##name, about); \
    static void law_##name(pbt::Case &c)

#endif
