#include "perturb.hpp"
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <optional>
#include <thread>
#include <unistd.h>
#include <vector>
using stlab::serial_queue_t; using stlab::schedule_mode; using T = stlab::task<void() noexcept>;
#define FAIL(...) do { printf("FAIL " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static const char* mn(schedule_mode m) { return m == schedule_mode::all ? "all" : "single"; }
// a manual executor: scheduled work waits until the test runs it
struct manual { std::deque<T> q; };
int main() {
    setvbuf(stdout, nullptr, _IONBF, 0); int hist = 0;
    for (auto mode : {schedule_mode::single, schedule_mode::all}) {
        // 1. deterministic histories: submissions (also from inside tasks) and drains in every small order
        for (int seed = 0; seed < 400; ++seed) {
            unsigned r = seed * 2654435761u + 12345; auto rnd = [&](int n) { r = r * 1664525u + 1013904223u; return int((r >> 16) % n); };
            auto m = std::make_shared<manual>(); bool inl = seed % 4 == 3; int depth = 0;
            std::vector<int> ran; int next = 0, expect = 0; bool inside = false; std::string h;
            std::optional<serial_queue_t> q; std::function<void(int)> submit;
            {
                q.emplace([m, inl, &depth](auto&& f) { if (inl && depth < 30) { ++depth; T t(std::forward<decltype(f)>(f)); t(); --depth; } else m->q.push_back(T(std::forward<decltype(f)>(f))); }, mode);
                submit = [&](int nest) { int id = next++; q->executor()([&, id, nest]() noexcept { if (inside) FAIL("mode %s seed %d history %s: tasks overlap", mn(mode), seed, h.c_str()); inside = true; ran.push_back(id); for (int k = 0; k < nest; ++k) if (next < 60 && q) submit(nest - 1); inside = false; }); };
                for (int step = 0; step < 12; ++step) {
                    int a = rnd(3);
                    if (a == 0 || a == 1) { int n = rnd(3); h += "submit(" + std::to_string(n) + ") "; submit(n); }
                    else if (!m->q.empty()) { h += "drain "; T t = std::move(m->q.front()); m->q.pop_front(); t(); }
                    if (m->q.size() > 1) FAIL("mode %s seed %d history %s: two drains scheduled at once", mn(mode), seed, h.c_str());
                    if ((int)ran.size() < next && m->q.empty() && depth == 0) FAIL("mode %s seed %d history %s: %d tasks stranded with no drain scheduled", mn(mode), seed, h.c_str(), next - (int)ran.size());
                }
            } q.reset();  // the queue handle is gone, scheduled work must still run
            for (int g = 0; !m->q.empty() && g < 1000; ++g) { T t = std::move(m->q.front()); m->q.pop_front(); t(); }
            expect = next; if ((int)ran.size() != expect) FAIL("mode %s seed %d history %s: %d of %d tasks ran", mn(mode), seed, h.c_str(), (int)ran.size(), expect);
            for (int i = 0; i < expect; ++i) if (ran[i] != i) FAIL("mode %s seed %d history %s: task %d ran at position %d", mn(mode), seed, h.c_str(), ran[i], i);
            ++hist;
        }
        // 2. threads: several submitters, concurrent executors
        for (int round = 0; round < 30; ++round) {
            struct S { std::atomic<int> inside{0}; std::atomic<int> done{0}; std::vector<int> last = std::vector<int>(4, -1); int plain = 0; }; S s; const int N = 250;
            std::atomic<bool> stop{false}; std::mutex mx; std::deque<T> ready;
            auto exec = [&](auto&& f) { T t(std::forward<decltype(f)>(f)); if (round % 3 == 0) { t(); return; } std::lock_guard<std::mutex> l(mx); ready.push_back(std::move(t)); };
            serial_queue_t q(exec, mode);
            std::vector<std::thread> ws; for (int w = 0; w < 3; ++w) ws.emplace_back([&] { while (!stop) { T t; bool have = false; { std::lock_guard<std::mutex> l(mx); if (!ready.empty()) { t = std::move(ready.back()); ready.pop_back(); have = true; } } if (have) t(); else std::this_thread::yield(); } });
            std::vector<std::thread> ts; for (int k = 0; k < 4; ++k) ts.emplace_back([&, k] { for (int i = 0; i < N; ++i) { q.executor()([&s, k, i]() noexcept { if (s.inside++) FAIL("concurrent tasks overlap"); ++s.plain; if (s.last[k] != i - 1) FAIL("submitter %d: task %d ran after %d", k, i, s.last[k]); s.last[k] = i; --s.inside; ++s.done; }); if (i % 16 == 0) std::this_thread::yield(); } });
            for (auto& t : ts) t.join();
            for (int w = 0; s.done != 4 * N; ++w) { if (w > 20000) FAIL("mode %s: %d of %d concurrently submitted tasks ran (stranded)", mn(mode), s.done.load(), 4 * N); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
            stop = true; for (auto& w : ws) w.join(); if (s.plain != 4 * N) FAIL("lost update: tasks are not ordered by happens-before");
        }
    }
    // 3. short bursts against a draining executor: the last submission of a burst must not be stranded
    for (auto mode : {schedule_mode::single, schedule_mode::all}) {
        std::atomic<int> n{0}; std::atomic<int> go{0}, fin{0}; const int R = 400, K = 3;
        serial_queue_t q([](auto&& f) { T t(std::forward<decltype(f)>(f)); t(); }, mode);
        std::vector<std::thread> ts; for (int k = 0; k < K; ++k) ts.emplace_back([&] { for (int r = 1; r <= R; ++r) { while (go < r) std::this_thread::yield(); q.executor()([&]() noexcept { ++n; }); ++fin; } });
        for (int r = 1; r <= R; ++r) { go = r; while (fin != r * K) std::this_thread::yield(); for (int w = 0; n != r * K; ++w) { if (w > 3000) FAIL("mode %s: burst %d: %d of %d tasks ran (stranded)", mn(mode), r, n.load() - (r - 1) * K, K); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } }
        for (auto& t : ts) t.join();
    }
    { serial_queue_t q(stlab::default_executor, schedule_mode::all); std::atomic<int> n{0}; int plain = 0; for (int i = 0; i < 2000; ++i) q.executor()([&]() noexcept { ++plain; ++n; }); for (int w = 0; n != 2000; ++w) { if (w > 20000) FAIL("default executor: stranded"); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } if (plain != 2000) FAIL("overlap"); }
    stlab::pre_exit(); printf("COVER %d deterministic histories, 60 threaded rounds\n", hist); fflush(stdout); _exit(0);
}
