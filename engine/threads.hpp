// Threads that start at the same moment.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <thread>

// Runs f(0..n-1), each in its thread and all of them from the same moment on; what one of them throws is thrown.
template<class F> inline void together(size_t n, F&& f)
{
    std::atomic<size_t> ready{0};
    std::vector<std::string> bad(n);
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; ++i)
    {
        th.emplace_back([&, i]
                {
                    ++ready;
                    while (ready < n) { std::this_thread::yield(); }
                    try { f(i); }
                    catch (const pbt::Failure& e) { bad[i] = e.msg; }
                    catch (const std::exception& e) { bad[i] = std::string("unexpected exception: ") + e.what(); }
                    if (bad[i].empty()) { return; }
                    bad[i] = "in one of the threads: " + bad[i];
                });
    }
    for (auto& x : th) { x.join(); }
    for (auto& b : bad) { CHECK(b.empty(), b); }
}
