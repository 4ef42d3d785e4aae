#include "perturb.hpp"
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using T = stlab::task<void() noexcept>; using NQ = stlab::detail::notification_queue; using PTS = stlab::detail::priority_task_system;
#define FAIL(...) do { printf("FAIL " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
template <class P> static void wait_for(P p, const char* what, int limit = 20000) { for (int w = 0; !p(); ++w) { if (w > limit) FAIL("%s", what); ms(1); } }
static unsigned g_r = 1; static int rnd(int n) { g_r = g_r * 1664525u + 1013904223u; return int((g_r >> 16) % n); }
struct rec { std::vector<int>* out; int id; std::shared_ptr<int> life; void operator()() noexcept { if (!life) FAIL("task %d ran moved-from", id); out->push_back(id); } };
int main() {
    setvbuf(stdout, nullptr, _IONBF, 0); int hist = 0;
    // 1. one queue, one thread: priority then submission order, nothing lost, copies leave the original alone
    for (int seed = 0; seed < 1500; ++seed) {
        g_r = seed * 2654435761u + 17; NQ q; std::multimap<int, int> model; std::vector<int> out; int next = 0; std::string h; auto life = std::make_shared<int>(1); int np = 1 + rnd(3); int burst = seed % 3;
        auto take = [&](T t, const char* how) {
            if (!t) { if (!model.empty()) FAIL("history %s: %s returned nothing with %zu tasks queued", h.c_str(), how, model.size()); return; }
            if (model.empty()) FAIL("history %s: %s invented a task", h.c_str(), how);
            std::size_t n = out.size(); t(); if (out.size() != n + 1) FAIL("history %s: task did not run once", h.c_str()); auto it = model.begin();
            if (out.back() != it->second) FAIL("history %s: %s handed out task %d, expected %d (priority %d)", h.c_str(), how, out.back(), it->second, it->first); model.erase(it); };
        for (int s = 0; s < 40; ++s) {
            int a = rnd(burst ? 5 : 4);
            if (a == 0 || a == 4) { int p = rnd(np); int id = next++; h += "push" + std::to_string(p) + " "; rec f{&out, id, life}; q.push(std::move(f), p); model.emplace(p, id); }
            else if (a == 1) { int p = rnd(np); int id = next++; h += "try_push" + std::to_string(p) + " "; rec f{&out, id, life}; if (!q.try_push(f, p)) FAIL("uncontended try_push failed"); if (!f.life) FAIL("try_push of an lvalue moved from it"); model.emplace(p, id); }
            else if (a == 2) { h += "try_pop "; take(q.try_pop(), "try_pop"); }
            else if (!model.empty()) { h += "pop "; auto r = q.pop(); if (r.first) FAIL("history %s: pop reported the end with work queued", h.c_str()); take(std::move(r.second), "pop"); }
        }
        if (seed % 2) q.done(); h += "drain ";
        while (!model.empty()) { auto r = q.pop(); if (r.first) FAIL("history %s: pop reported the end with work queued", h.c_str()); take(std::move(r.second), "pop"); }
        take(q.try_pop(), "try_pop"); if (seed % 2) { auto r = q.pop(); if (!r.first || r.second) FAIL("history %s: pop after done did not report the end", h.c_str()); }
        if (q.wake()) FAIL("wake() with nobody waiting"); if (life.use_count() != 1) FAIL("history %s: %ld task copies leaked", h.c_str(), life.use_count() - 1); ++hist;
    }
    // 1b. order holds for long queues
    { NQ q; std::vector<int> out; auto life = std::make_shared<int>(1); std::vector<std::pair<int, int>> m; for (int i = 0; i < 70000; ++i) { int p = rnd(3); m.emplace_back(p, i); q.push(rec{&out, i, life}, p); } std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& e : m) { q.try_pop()(); if (out.back() != e.second) FAIL("70000 tasks: %d handed out instead of %d", out.back(), e.second); } }
    // 2. one queue, threads
    for (int round = 0; round < 25; ++round) {
        NQ q; const int P = 3, C = 1 + round % 3, N = 300; std::atomic<int> ran{0}; std::vector<std::atomic<int>> times(P * N);
        std::vector<std::thread> cs, ps; std::atomic<bool> go{false}; std::atomic<int> in{0};
        for (int c = 0; c < C; ++c) cs.emplace_back([&, c] { if (c) { while (in < P * N && ran < P * N) { auto t = q.try_pop(); if (t) t(); else std::this_thread::yield(); } return; } while (true) { auto r = q.pop(); if (r.first) { if (r.second) FAIL("end signal together with a task"); break; } if (r.second) r.second(); } });
        for (int p = 0; p < P; ++p) ps.emplace_back([&, p] { for (int i = 0; i < N; ++i) { int id = p * N + i; auto f = [&, id]() noexcept { ++times[id]; ++ran; }; if (i % 2) { while (!q.try_push(f, i % 3)) {} } else q.push(f, i % 3); ++in; if (i % 40 == 0) std::this_thread::yield(); } });
        for (auto& t : ps) t.join(); wait_for([&] { return ran == P * N; }, "one queue: a submitted task never ran (consumer asleep with work queued)"); q.done();
        for (auto& t : cs) t.join(); for (auto& t : times) if (t != 1) FAIL("a task ran %d times", t.load());
    }
    // 2b. ping-pong: every single submission must wake the sleeping consumer; done() must wake it too
    for (int round = 0; round < 40; ++round) {
        NQ q; std::atomic<int> n{0}; std::thread c([&] { while (true) { auto r = q.pop(); if (r.first) break; if (r.second) r.second(); } }); int K = 60;
        for (int i = 0; i < K; ++i) { auto f = [&]() noexcept { ++n; }; if (i % 2) { while (!q.try_push(f, 1)) std::this_thread::yield(); } else q.push(f, 1); if (round % 2 || i % 3 == 0) for (int w = 0; n <= i; ++w) { if (w > 2000000) FAIL("the consumer was not woken for submission %d", i); if (w > 100) ms(w > 2000 ? 1 : 0); if (w > 12000) FAIL("the consumer was not woken for submission %d", i); } }
        q.done(); c.join(); if (n != K) FAIL("%d of %d tasks ran before shutdown completed", n.load(), K);
    }
    // 2c. wake() releases a consumer blocked on an empty queue without inventing work or an end
    for (int round = 0; round < 20; ++round) { NQ q; std::atomic<int> back{0}; std::thread c([&] { for (int i = 0; i < 20; ++i) { auto r = q.pop(); if (r.first || r.second) FAIL("wake() produced a task or an end"); ++back; } }); for (int i = 0; i < 20; ++i) { for (int w = 0; !q.wake(); ++w) { if (w > 20000) FAIL("wake() never succeeded"); ms(w > 100 ? 1 : 0); } wait_for([&] { return back > i; }, "a consumer released by wake() stayed asleep"); } c.join(); }
    // waiter
    for (int round = 0; round < 20; ++round) { stlab::detail::waiter q; std::atomic<int> back{0}; std::thread c([&] { for (int i = 0; i < 10; ++i) { if (q.wait()) FAIL("waiter: end without done()"); ++back; } if (!q.wait()) FAIL("waiter: done() lost"); if (!q.wait()) FAIL("waiter: done() is not sticky"); }); for (int i = 0; i < 10; ++i) { for (int w = 0; !q.wake(); ++w) { if (w > 20000) FAIL("waiter: wake() never succeeded"); ms(w > 100 ? 1 : 0); } wait_for([&] { return back > i; }, "waiter: released thread stayed asleep"); } if (round % 2) ms(1); q.done(); c.join(); if (q.wake()) FAIL("waiter: wake() with nobody waiting"); }
    // 3. the task system: tasks from outside and inside, all priorities, then shutdown
    for (int round = 0; round < 25; ++round) {
        auto ts = std::make_unique<PTS>(); std::atomic<int> n{0}; const int K = 3, N = 120, NEST = 3; std::vector<std::atomic<int>> times(K * N * (NEST + 1)); std::vector<std::thread> ps;
        for (int x = 0; x < round % 4; ++x) ts->add_thread();
        for (int k = 0; k < K; ++k) ps.emplace_back([&, k] { for (int i = 0; i < N; ++i) { int id = (k * N + i) * (NEST + 1);
            struct F { PTS* ts; std::atomic<int>* n; std::atomic<int>* times; int left; void operator()() noexcept { ++*times; ++*n; if (left) { F f{ts, n, times + 1, left - 1}; left % 2 ? ts->execute<0>(f) : ts->execute<2>(std::move(f)); } } } f{ts.get(), &n, &times[id], NEST};
            switch (i % 3) { case 0: ts->execute<0>(f); break; case 1: ts->execute<1>(std::move(f)); break; default: ts->execute<2>(T(f)); } if (i % 50 == 0) ts->wake(); } });
        for (auto& t : ps) t.join(); int total = K * N * (NEST + 1);
        if (round % 2) wait_for([&] { return n == total; }, "task system: a submitted task never ran");
        ts->join(); if (n != total) FAIL("task system: %d of %d tasks ran before shutdown completed", n.load(), total); for (auto& t : times) if (t != 1) FAIL("task system: a task ran %d times", t.load());
    }
    // 3b. single submissions to an idle system
    { PTS ts; std::atomic<int> n{0}; for (int i = 0; i < 800; ++i) { auto f = [&]() noexcept { ++n; }; i % 3 == 0 ? ts.execute<0>(f) : i % 3 == 1 ? ts.execute<1>(f) : ts.execute<2>(f); if (i % 8 == 7) for (int w = 0; n <= i; ++w) { if (w > 12000) FAIL("idle task system: %d of %d tasks ran", n.load(), i + 1); if (w > 200) ms(w > 2000 ? 1 : 0); } } ts.join(); }
    // 3c. chains submitted while shutdown is in progress: a task submitted from inside a running task still runs
    for (int round = 0; round < 60; ++round) { PTS ts; std::atomic<int> n{0}; struct G { PTS* ts; std::atomic<int>* n; int left; void operator()() noexcept { if (left) { for (volatile int w = 0; w < 2000; ++w) {} ts->execute<1>(G{ts, n, left - 1}); } ++*n; } }; for (int k = 0; k < 3; ++k) ts.execute<1>(G{&ts, &n, 60}); if (round % 3 == 0) ms(1); ts.join(); if (n != 3 * 61) FAIL("shutdown: %d of %d chained tasks ran", n.load(), 3 * 61); }
    // 4. the default executors
    { std::atomic<int> n{0}; for (int i = 0; i < 600; ++i) { stlab::default_executor([&]() noexcept { ++n; stlab::low_executor([&]() noexcept { ++n; }); }); stlab::high_executor([&]() noexcept { ++n; }); } wait_for([&] { return n == 1800; }, "executors: a submitted task never ran"); }
    stlab::pre_exit(); printf("COVER %d queue histories, 25 threaded rounds per layer\n", hist); fflush(stdout); _exit(0);
}
