#include "perturb.hpp"
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using T = stlab::task<void() noexcept>; using S = stlab::detail::system_timer; using namespace std::chrono; using C = steady_clock;
#define FAIL(...) do { printf("FAIL " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static void ms(int n) { std::this_thread::sleep_for(milliseconds(n)); }
template <class P> static void wait_for(P p, const char* what, int limit = 20000) { for (int w = 0; !p(); ++w) { if (w > limit) FAIL("%s", what); ms(1); } }
static unsigned g_r = 1; static int rnd(int n) { g_r = g_r * 1664525u + 1013904223u; return int((g_r >> 16) % n); }
int main() {
    setvbuf(stdout, nullptr, _IONBF, 0); int hist = 0;
    // 1. exact order and completeness: the timer thread is held while tasks arrive in every kind of order
    for (int seed = 0; seed < 120; ++seed) {
        g_r = seed * 2654435761u + 11; S t; std::atomic<bool> held{false}, go{false}; t(nanoseconds(0), [&]() noexcept { held = true; while (!go) std::this_thread::yield(); }); wait_for([&] { return held.load(); }, "the first task did not start");
        int n = 1 + rnd(14); auto base = C::now(); std::vector<std::pair<long, int>> lo(n), hi(n); std::vector<int> out; std::string h; std::atomic<int> fin{0};
        for (int i = 0; i < n; ++i) { int d = rnd(3) ? rnd(12) : -rnd(5); int u = rnd(3); h += std::to_string(d) + (u == 0 ? "us*500 " : "ms "); auto a = C::now(); auto f = [&out, &fin, i]() noexcept { out.push_back(i); ++fin; };
            nanoseconds dd; if (u == 0) { dd = microseconds(d * 500); t(microseconds(d * 500), std::move(f)); } else if (u == 1) { dd = milliseconds(d); t(milliseconds(d), std::move(f)); } else { dd = milliseconds(d); t(nanoseconds(dd), f); } auto b = C::now(); lo[i] = {(a + dd - base).count(), i}; hi[i] = {(b + dd - base).count(), i}; }
        ms(9); while (C::now() < base + milliseconds(14)) ms(1); go = true; wait_for([&] { return fin >= n; }, "a scheduled task never ran");
        if ((int)out.size() != n) FAIL("deadlines %s: %zu of %d tasks ran", h.c_str(), out.size(), n); std::vector<int> c = out; std::sort(c.begin(), c.end()); for (int i = 0; i < n; ++i) if (c[i] != i) FAIL("deadlines %s: a task ran twice", h.c_str());
        for (int i = 0; i + 1 < n; ++i) if (lo[out[i]].first > hi[out[i + 1]].first) FAIL("deadlines %s: task %d ran before task %d, whose deadline is earlier", h.c_str(), out[i], out[i + 1]); ++hist;
    }
    // 2. never early, exactly once, several submitters, running timer
    for (int round = 0; round < 12; ++round) {
        S t; std::atomic<int> n{0}; const int K = 3, N = 60; std::vector<std::atomic<int>> times(K * N); std::vector<std::thread> ps;
        for (int k = 0; k < K; ++k) ps.emplace_back([&, k] { unsigned r = round * 31 + k; for (int i = 0; i < N; ++i) { r = r * 1664525u + 1013904223u; int d = (r >> 16) % (round % 2 ? 25 : 3); auto dl = C::now() + milliseconds(d); int id = k * N + i; t(milliseconds(d), [&, dl, id]() noexcept { if (C::now() < dl) FAIL("a task started before its deadline"); ++times[id]; ++n; }); if (i % 9 == 0) std::this_thread::yield(); } });
        for (auto& p : ps) p.join(); wait_for([&] { return n == K * N; }, "a scheduled task never ran"); for (auto& x : times) if (x != 1) FAIL("a task ran %d times", x.load());
    }
    // 3. single submissions to a sleeping timer, including ones earlier than what it sleeps for
    for (int round = 0; round < 6; ++round) { S t; std::atomic<int> n{0}; std::atomic<bool> late{false}; if (round % 2) t(seconds(40), [&]() noexcept { late = true; }); if (round % 3 == 1) { t(milliseconds(39000), [&]() noexcept { late = true; }); t(C::now() + seconds(41), [&]() noexcept { late = true; }); }
        for (int i = 0; i < 40; ++i) { auto dl = C::now() + microseconds(i % 4 * 700); auto f = [&, dl]() noexcept { if (C::now() < dl) FAIL("a task started before its deadline"); ++n; }; if (i % 3 == 0) t(dl, std::move(f)); else t(microseconds(i % 4 * 700), std::move(f)); wait_for([&] { return n > i; }, "a task with an early deadline is delayed behind later ones", 12000); }
        // descending deadlines: each new one is the earliest
        for (int i = 0; i < 5; ++i) t(seconds(30 - i), [&]() noexcept { late = true; }); int before = n; t(milliseconds(3), [&]() noexcept { ++n; }); wait_for([&] { return n > before; }, "a task with an early deadline is delayed behind later ones", 12000);
        if (late) FAIL("a task ran long before its deadline"); }
    // 4. stopping: at any moment, terminates promptly and runs nothing early
    for (int round = 0; round < 150; ++round) {
        std::atomic<bool> early{false}; auto life = std::make_shared<int>(0); auto a = C::now(); { S t; int k = round % 6; for (int i = 0; i < k; ++i) { auto dl = C::now() + seconds(30 + i); t(seconds(30 + i), [&, dl, life]() noexcept { if (C::now() < dl) early = true; }); } if (k > 3) t(milliseconds(0), [life]() noexcept {}); if (round % 4 == 3) ms(1); else for (volatile int w = 0; w < round * 40; ++w) {} }
        if (C::now() - a > seconds(15)) FAIL("stopping did not wake the timer thread"); if (early) FAIL("stopping ran a task before its deadline"); if (life.use_count() != 1) FAIL("stopping leaked %ld tasks", life.use_count() - 1);
    }
    // 5. the process-wide timer
    { std::atomic<int> n{0}; for (int i = 0; i < 60; ++i) { auto dl = C::now() + milliseconds(i % 7); auto f = [&, dl]() noexcept { if (C::now() < dl) FAIL("system_timer: a task started before its deadline"); ++n; }; if (i % 2) stlab::system_timer(milliseconds(i % 7), T(f)); else stlab::system_timer(dl, T(f)); } wait_for([&] { return n == 60; }, "system_timer: a scheduled task never ran"); }
    stlab::pre_exit(); printf("COVER %d arrival orders, 12 threaded rounds, 150 stops\n", hist); fflush(stdout); _exit(0);
}
