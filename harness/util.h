// Shared helpers of the replay programs.
#pragma once
#include <bits/stdc++.h>
#include <sys/stat.h>
#include <unistd.h>
// a thread that runs closures on request, so that lock ownership is per "handle thread"
struct Worker {
    std::thread t; std::mutex m; std::condition_variable c; std::function<void()> job; bool busy = false, quit = false;
    Worker() { t = std::thread([this] { std::unique_lock<std::mutex> l(m); while (true) { c.wait(l, [&] { return busy || quit; }); if (quit) return; l.unlock(); job(); l.lock(); busy = false; c.notify_all(); } }); }
    void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; busy = true; c.notify_all(); }
    bool wait(int ms) { std::unique_lock<std::mutex> l(m); return c.wait_for(l, std::chrono::milliseconds(ms), [&] { return !busy; }); }
    void run(std::function<void()> f, const char* what = "operation") { start(f); if (!wait(60000)) { printf("VIOLATED: %s never returned (blocked on a lock nobody releases)\n", what); _exit(1); } }
    ~Worker() { { std::unique_lock<std::mutex> l(m); quit = true; c.notify_all(); } t.join(); }
};
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } int below(int n) { return (int) ((next() >> 33) % n); } bool p(int pc) { return below(100) < pc; } };
