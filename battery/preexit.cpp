#undef NDEBUG
#include <src/pre_exit.cpp>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
using stlab::at_pre_exit; using stlab::pre_exit;
static std::vector<int> ran; static int budget;
#define FAIL(...) do { printf("FAIL " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
template <int N> void act() noexcept { ran.push_back(N); }
template <int N> void nest() noexcept { ran.push_back(100 + N); if (budget-- > 0) { at_pre_exit(act<N>); at_pre_exit(nest<N>); } }
static void thr() noexcept { ran.push_back(50); std::thread([] { at_pre_exit(act<7>); }).join(); ran.push_back(51); }
using H = stlab::pre_exit_handler;
static const H hs[] = {act<0>, act<1>, act<2>, act<3>, nest<4>, nest<5>, thr};
static const int ids[] = {0, 1, 2, 3, 104, 105, 50};
template <class F> static int child(F f) { fflush(stdout); pid_t p = fork(); if (!p) { alarm(20); freopen("/dev/null", "w", stderr); f(); _exit(0); } int st = 0; waitpid(p, &st, 0); return st; }
// model of the registry
static std::vector<int> model(std::vector<int> s, int bud) {
    std::vector<int> out; while (!s.empty()) { int k = s.back(); s.pop_back(); out.push_back(ids[k < 7 ? k : 0]); if (k == 7) { out.back() = 7; continue; } if (k == 8) { out.back() = 4; continue; } if (k == 9) { out.back() = 5; continue; }
        if (k == 4 || k == 5) { if (bud-- > 0) { s.push_back(k + 4); s.push_back(k); } } if (k == 6) { s.push_back(7); out.push_back(51); } } return out; }
int main() {
    srand(1); int histories = 0;
    for (int t = 0; t < 300; ++t) {
        int n = t == 0 ? 0 : t < 8 ? t : t % 50 == 0 ? 200 : rand() % 12; std::vector<int> s; std::string txt; for (int i = 0; i < n; ++i) { s.push_back(rand() % 7); txt += std::to_string(s.back()); } int b = rand() % 4;
        int st = child([&] { budget = b; for (int k : s) at_pre_exit(hs[k]); pre_exit(); if (ran != model(s, b)) { std::string g; for (int x : ran) g += std::to_string(x) + " "; FAIL("actions of %s (budget %d) ran as: %s", txt.c_str(), b, g.c_str()); } });
        if (st) FAIL("pre_exit after registering [%s] budget %d: %s", txt.c_str(), b, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not terminate" : "crashes") : "wrong order"); ++histories;
    }
    int st = child([&] { static std::atomic<int> hits{0}; std::vector<std::thread> v; for (int i = 0; i < 6; ++i) v.emplace_back([] { for (int k = 0; k < 500; ++k) at_pre_exit([]() noexcept { ++hits; }); }); for (auto& x : v) x.join(); pre_exit(); if (hits != 3000) FAIL("concurrently registered actions: %d of 3000 ran", hits.load()); });
    if (st) FAIL("concurrent registration");
    st = child([&] { pre_exit(); at_pre_exit(act<0>); }); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) FAIL("registering after pre_exit() is not reported");
    st = child([&] { at_pre_exit(act<0>); pre_exit(); at_pre_exit(act<1>); }); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) FAIL("registering after pre_exit() is not reported");
    st = child([&] { pre_exit(); pre_exit(); }); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) FAIL("a second pre_exit() is not reported");
    st = child([&] { at_pre_exit(act<0>); exit(0); }); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) FAIL("a missing pre_exit() is not reported");
    pre_exit(); printf("COVER %d registration histories\n", histories);
}
