// threads.hpp -- threads that start together.
#ifndef THREADS_HPP
#define THREADS_HPP
#include <atomic>
#include <exception>
#include <string>
#include <thread>
#include <vector>

template<typename F>
std::string together(int n, F f) {
    std::atomic<int> ready {0};
    std::vector<std::string> err(n);
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) {
        t.emplace_back([&, i] {
            ++ready;
            while (ready.load() < n) {}
            try { f(i); } catch (const std::exception &e) { err[i] = e.what(); }
        });
    }
    for (auto &x : t) x.join();
    for (auto &e : err) if (!e.empty()) return e;
    return "";
}
#endif
