#include <stlab/scope.hpp>
#include <stlab/concurrency/progress.hpp>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s\n", m); fflush(stdout); exit(1); } } while (0)
static int alive, made; static std::string lg;
struct R { int k; explicit R(int a = 0, std::string s = "") : k(a) { ++alive; ++made; lg += "c" + std::to_string(a) + s; } R(const R&) = delete; ~R() { --alive; lg += "d"; } };
struct MoveOnly { std::unique_ptr<int> p; };
struct FakeMutex { int n = 0, max = 0, locks = 0; void lock() { ++n; ++locks; } void unlock() { --n; } bool try_lock() { ++n; return true; } };
int main() {
    using stlab::scope;
    { int n = 0; int r = scope<R>(7, std::string("x"), [&] { ++n; CHECK(alive == 1, "the body runs outside the scope"); lg += "b"; return 42; }); CHECK(r == 42 && n == 1 && alive == 0 && lg == "c7xbd", "scope with arguments"); lg.clear(); }
    { auto r = scope<R>([&] { CHECK(alive == 1, "alive"); return MoveOnly{std::make_unique<int>(3)}; }); CHECK(*r.p == 3 && alive == 0 && lg == "c0d", "scope without arguments, move-only result"); lg.clear(); }
    { bool t = false; try { scope<R>(1, std::string(), [&]() -> int { lg += "b"; throw std::runtime_error("x"); }); } catch (const std::runtime_error& e) { t = std::string(e.what()) == "x"; } CHECK(t && alive == 0 && lg == "c1bd", "scope with a throwing body"); lg.clear(); }
    { std::mutex m; int n = 0; int r = scope<std::lock_guard<std::mutex>>(m, [&] { ++n; std::thread([&] { CHECK(!m.try_lock(), "the body runs without the lock"); }).join(); return 5; }); CHECK(r == 5 && n == 1, "lock_guard scope"); CHECK(m.try_lock(), "the lock is not released"); m.unlock();
      bool t = false; try { scope<std::unique_lock<std::mutex>>(m, []() -> int { throw 3; }); } catch (int i) { t = i == 3; } CHECK(t && m.try_lock(), "the lock is not released when the body throws"); m.unlock();
      scope<std::scoped_lock<std::mutex>>(m, [&] { ++n; }); CHECK(n == 2 && m.try_lock(), "void scope"); m.unlock();
      struct Once { std::unique_ptr<int> p = std::make_unique<int>(9); int operator()() && { return *p; } }; CHECK((scope<std::unique_lock<std::mutex>>(m, Once{}) == 9), "rvalue body"); CHECK(m.try_lock(), "released"); m.unlock(); }
    { FakeMutex f; scope<std::unique_lock<FakeMutex>>(f, [&] { CHECK(f.n == 1, "locked in the body"); }); CHECK(f.n == 0 && f.locks == 1, "locked once"); scope<std::unique_lock<FakeMutex>>(f, std::defer_lock, [&] { CHECK(f.n == 0, "deferred"); }); CHECK(f.n == 0 && f.locks == 1, "a deferred lock is not taken"); }
    // progress: the total is the number of live wrapped tasks, one completion per finished invocation
    using Cl = stlab::detail::tracker_client<std::function<int(int)>>;
    for (int seed = 0; seed < 3000; ++seed) {
        srand(seed); std::vector<std::pair<size_t, size_t>> sig[2]; std::unique_ptr<stlab::progress_tracker> t[2];
        for (int i = 0; i < 2; ++i) t[i] = std::make_unique<stlab::progress_tracker>([&sig, i](size_t a, size_t b) { sig[i].push_back({a, b}); });
        std::vector<std::pair<std::unique_ptr<Cl>, int>> v; size_t done[2] = {0, 0}; std::string ops;
        for (int s = 0; s < 12; ++s) {
            int op = rand() % 7, w = rand() % 2; ops += char('0' + op);
            auto pick = [&] { return rand() % v.size(); };
            if (op == 0 || v.empty()) { v.push_back({std::make_unique<Cl>((*t[w])(std::function<int(int)>([](int x) { if (x < 0) throw 1; return x + 1; }))), w}); }
            else if (op == 1) { auto i = pick(); auto j = v[i].second; v.push_back({std::make_unique<Cl>(*v[i].first), j}); }
            else if (op == 2) { auto i = pick(); int j = v[i].second; auto p = std::make_unique<Cl>(std::move(*v[i].first)); v[i].second = -1; v.push_back({std::move(p), j}); }
            else if (op == 3) { auto i = pick(); v.erase(v.begin() + i); }
            else if (op == 4) { auto i = pick(), j = pick(); *v[i].first = *v[j].first; v[i].second = v[j].second; }
            else if (op == 5) { auto i = pick(), j = pick(); *v[i].first = std::move(*v[j].first); if (i != j) { v[i].second = v[j].second; v[j].second = -1; } }
            else { auto i = pick(); int w2 = v[i].second; if (w2 >= 0) { bool th = rand() % 4 == 0; size_t n = sig[w2].size(); try { int r = (*v[i].first)(th ? -1 : 4); CHECK(r == 5, "result of a tracked task"); ++done[w2]; CHECK(sig[w2].size() == n + 1 && sig[w2].back() == std::make_pair(t[w2]->steps(), done[w2]), "signal"); } catch (int) { CHECK(th && sig[w2].size() == n, "throwing task"); } } }
            for (int k = 0; k < 2; ++k) { size_t live = 0; for (auto& e : v) live += e.second == k; if (t[k]->steps() != live || t[k]->completed() != done[k]) { printf("FAIL progress counts: steps %zu (live %zu) completed %zu (done %zu) seed %d ops %s\n", t[k]->steps(), live, t[k]->completed(), done[k], seed, ops.c_str()); exit(1); } }
        }
        if (seed % 2) { t[0].reset(); for (auto& e : v) if (e.second == 0) (*e.first)(1); }
    }
    { stlab::progress_tracker p; std::atomic<int> n{0}; { std::vector<std::thread> th; for (int i = 0; i < 8; ++i) th.emplace_back([&] { for (int k = 0; k < 2000; ++k) { auto f = p([&](int x) { ++n; return x; }); auto g = f; f(1); g(2); } }); for (auto& x : th) x.join(); } CHECK(p.steps() == 0 && p.completed() == 32000 && n == 32000, "concurrent progress counts"); }
    printf("COVER scope forms and 3000 random progress histories\n");
}
