// bounded harness for C09, C10, C11: random single-threaded histories against a reference model, and threads racing under schedule perturbation
#include "perturb.hpp"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <stlab/pre_exit.hpp>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace stlab;
static std::string ctx; static long scenarios, conts, racers;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s [%s]\n", m, ctx.c_str()); fflush(stdout); _exit(1); } } while (0)
using T = task<void() noexcept>;
struct Err { int id; };
struct Mo { std::unique_ptr<int> p; Mo() = default; explicit Mo(int i) : p(new int(i)) {} };
struct Val { int i = -1; explicit Val(int x) : i(x) {} Val(const Val&) = default; Val& operator=(const Val&) = default; Val(Val&& o) noexcept : i(o.i) { o.i = -2; } Val& operator=(Val&& o) noexcept { i = o.i; o.i = -2; return *this; } };
template <class X> X make(int v);
template <> Val make<Val>(int v) { return Val(v); }
template <> Mo make<Mo>(int v) { return Mo(v); }
template <> void make<void>(int) {}
static int num(const Val& v) { return v.i; }
static int num(const Mo& v) { return v.p ? *v.p : -2; }
// ---- executors of the histories: queues, one per number
struct Queue { std::deque<T> q; };
static Queue* queues; static int running = -1;
struct Ex { int n; template <class F> void operator()(F&& f) const { queues[n].q.emplace_back(std::forward<F>(f)); } };
struct Node { int ex = 0, parent = -1, kind = 0 /*0 task 1 then 2 recover*/, st = 0 /*0 pending 1 value 2 error 3 broken*/, v = 0, calls = 0, want = 0 /*value or error*/; bool thrower = false, queued = false, over = false, detached = false, inner = false; std::vector<int> kids; };
template <class X> struct Hist {
    static constexpr bool copyable = !std::is_same_v<X, Mo>; static constexpr bool isvoid = std::is_void_v<X>;
    std::mt19937& r; std::deque<Node> n; std::vector<std::vector<future<X>>> h; std::vector<packaged_task<>> tasks; std::vector<int> owner; std::vector<int> sched[3]; Queue q[3]; std::vector<int> modelq[3];
    Hist(std::mt19937& g) : r(g) { queues = q; }
    int rnd(int k) { return int(r() % unsigned(k)); }
    bool alive(int i) { if (!h[i].empty()) return true; if (n[i].detached && n[i].st == 0) return true; for (int k : n[i].kids) if (n[k].st == 0 && !n[k].over && alive(k)) return true; return false; }
    void complete(int i, int st, int v) {
        if (!alive(i)) { n[i].over = true; return; }
        n[i].st = st; n[i].v = v;
        for (int k : n[i].kids) if (!n[k].queued) { n[k].queued = true; modelq[n[k].ex].push_back(k); }
        n[i].detached = false;
    }
    void check() {
        for (int i = 0; i < int(n.size()); ++i) {
            Node& x = n[i];
            CHECK(x.calls <= 1, "a function or continuation is called more than once");
            for (auto& f : h[i]) {
                CHECK(f.valid(), "a held future is not valid"); CHECK(f.is_ready() == (x.st != 0), "is_ready does not tell whether the result is in place");
                if (x.st >= 2) {
                    bool thrown = false;
                    try { (void)f.get_try(); } catch (const Err& e) { thrown = x.st == 2 && e.id == x.v; } catch (const future_error& e) { thrown = x.st == 3 && e.code() == future_error_codes::broken_promise; }
                    CHECK(thrown, "a failed future does not rethrow its exception"); CHECK(f.exception() != nullptr && f.error(), "exception()/error() does not report the failure");
                } else if (x.st == 0) { CHECK(!f.get_try(), "get_try of a pending future returns something"); }
                else { CHECK(f.exception() == nullptr && !f.error(), "a successful future reports an exception"); if constexpr (copyable && !isvoid) { auto o = f.get_try(); CHECK(o && num(*o) == x.v, "get_try does not return the value"); CHECK(num(f.get_ready()) == x.v, "get_ready does not return the value"); } else if constexpr (isvoid) CHECK(f.get_try(), "get_try of a ready future returns nothing"); }
            }
        }
        for (int e = 0; e < 3; ++e) CHECK(q[e].q.size() == modelq[e].size(), "continuations are scheduled that should not be, or not scheduled, or on the wrong executor");
    }
    static void expect(int got, int want) { if (want != -99) CHECK(got == want, "a continuation does not receive the value of its antecedent"); }
    // the functions
    template <class... A> static X body(Node* x, A&&... a) {
        ++x->calls; ++conts;
        if constexpr (sizeof...(A) == 1 && !isvoid) (expect(num(a), x->want), ...);
        if (x->thrower) throw Err{x->v};
        return make<X>(x->v);
    }
    int add() { n.emplace_back(); h.emplace_back(); return int(n.size()) - 1; }
    future<X> inner_f;
    void newtask() {
        int i = add(); Node* x = &n[i]; x->ex = rnd(3); x->v = 100 + i; x->thrower = rnd(4) == 0;
        auto pr = package<X()>(Ex{x->ex}, [x] { return body(x); });
        h[i].push_back(std::move(pr.second)); tasks.push_back(std::move(pr.first)); owner.push_back(i);
    }
    void ran(int i) { Node& x = n[i]; if (x.over || x.st) return; if (!alive(i)) { x.over = true; return; } complete(i, x.thrower ? 2 : 1, x.v); }
    void dropped(int i) { if (!n[i].over && !n[i].st) complete(i, 3, 0); }
    void attach(int i, int hi) {
        int k = add(); Node* x = &n[k]; x->parent = i; x->kind = 1 + rnd(2); bool own = rnd(2); x->ex = own ? rnd(3) : n[i].ex; x->v = 1000 + k; x->thrower = rnd(4) == 0; bool consume = !copyable || rnd(2), pipe = rnd(3) == 0; future<X>& f = h[i][hi];
        auto ft = [x](auto&&... a) -> X { return body(x, a...); };
        auto fr = [x](future<X> p) -> X { CHECK(p.is_ready(), "a recover continuation is called before its antecedent is ready"); x->want = -1; bool e = bool(p.error()); x->queued = true; int got = -7; if (!e) { if constexpr (!isvoid) got = num(*std::move(p).get_try()); } x->parent = e ? -2 : got; return body(x); };
        auto go = [&](auto&& g) -> future<X> {
            if (x->kind == 1) {
                if constexpr (isvoid) { auto f0 = [x]() { body(x); }; if (own) return pipe ? std::forward<decltype(g)>(g) | (executor{Ex{x->ex}} & f0) : std::forward<decltype(g)>(g).then(Ex{x->ex}, f0); return pipe ? std::forward<decltype(g)>(g) | f0 : std::forward<decltype(g)>(g).then(f0); }
                else { auto f1 = [x](X a) -> X { return body(x, a); }; if (own) return pipe ? std::forward<decltype(g)>(g) | (executor{Ex{x->ex}} & f1) : std::forward<decltype(g)>(g).then(Ex{x->ex}, f1); return pipe ? std::forward<decltype(g)>(g) | f1 : std::forward<decltype(g)>(g).then(f1); }
            }
            if (own) return pipe ? std::forward<decltype(g)>(g) ^ (executor{Ex{x->ex}} & fr) : std::forward<decltype(g)>(g).recover(Ex{x->ex}, fr);
            return pipe ? std::forward<decltype(g)>(g) ^ fr : std::forward<decltype(g)>(g).recover(fr);
        };
        n[i].kids.push_back(k); if (!copyable) n[i].detached = false;   // a move-only future has room for one continuation
        if (consume) { h[k].push_back(go(std::move(f))); CHECK(!f.valid(), "a consumed future still has a state"); h[i].erase(h[i].begin() + hi); }
        else if constexpr (copyable) h[k].push_back(go(f));
        if (n[i].st) { x->queued = true; modelq[x->ex].push_back(k); }
        (void)ft;
    }
    void step_queue(int e, bool drop) {
        if (q[e].q.empty()) return;
        int k = modelq[e].front(); modelq[e].erase(modelq[e].begin()); Node& x = n[k]; Node& p = n[x.parent >= 0 ? x.parent : 0]; int ps = p.st, pv = p.v; int c0 = x.calls; bool al = alive(k); x.want = ps == 1 ? pv : -99; if (x.kind == 2) x.want = -99;
        { T t = std::move(q[e].q.front()); q[e].q.pop_front(); if (!drop) t(); }
        bool call = al && !drop && (x.kind == 2 || ps == 1);
        CHECK(x.calls - c0 == int(call), "a continuation is not called exactly when it should be");
        if (call && x.kind == 2) { CHECK(x.parent == -2 ? ps >= 2 : ps == 1, "recover does not see the outcome of its antecedent"); if constexpr (!isvoid) if (ps == 1) CHECK(x.parent == pv, "recover does not see the value of its antecedent"); }
        if (!al) { x.over = true; return; }
        if (drop) complete(k, 3, 0); else if (call) complete(k, x.thrower ? 2 : 1, x.v); else complete(k, ps, pv);
    }
    void run(int len) {
        for (int s = 0; s < len; ++s) {
            int op = rnd(16), hn = int(h.size()), i = hn ? rnd(hn) : 0;
            if (op < 2 || !hn) { if (hn < 12) newtask(); }
            else if (op < 6) { if (!h[i].empty() && hn < 24) attach(i, rnd(int(h[i].size()))); }
            else if (op == 6) { if constexpr (copyable) if (!h[i].empty()) { auto c = h[i][0]; h[i].push_back(c); CHECK(c == h[i][0], "a copy of a future does not compare equal"); } }
            else if (op == 7) { if (!h[i].empty() && rnd(2)) { int j = rnd(int(h[i].size())); if (rnd(2)) h[i][j].reset(); h[i].erase(h[i].begin() + j); } }
            else if (op == 8) { if (!h[i].empty()) { h[i][0].detach(); if (!n[i].st) n[i].detached = true; } }
            else if (op == 9 && tasks.size() > 0) { int j = rnd(int(tasks.size())); auto t = std::move(tasks[j]); CHECK(tasks[j].canceled(), "a moved-from task is not cancelled"); tasks[j] = std::move(t); auto& a = tasks[j]; auto& b = tasks[j]; a = std::move(b); }
            else if (op == 10 && tasks.size() > 1) { int j = rnd(int(tasks.size())), k = rnd(int(tasks.size())); if (j != k) { bool al = true; (void)al; tasks[j] = std::move(tasks[k]); dropped(owner[j]); owner[j] = owner[k]; tasks.erase(tasks.begin() + k); owner.erase(owner.begin() + k); } }
            else if (op == 11 && !tasks.empty()) { int j = rnd(int(tasks.size())); int o = owner[j]; tasks.erase(tasks.begin() + j); owner.erase(owner.begin() + j); dropped(o); }
            else if (op == 12 && !tasks.empty()) { int j = rnd(int(tasks.size())); tasks[j].set_exception(std::make_exception_ptr(Err{7000 + owner[j]})); if (!n[owner[j]].over && !n[owner[j]].st) complete(owner[j], 2, 7000 + owner[j]); }
            else if (op == 13 && !tasks.empty()) { int j = rnd(int(tasks.size())); int o = owner[j]; bool want = !n[o].st && !n[o].over && alive(o); CHECK(tasks[j].canceled() == !want, "canceled() does not tell whether a future still waits"); int c0 = n[o].calls; tasks[j](); CHECK(n[o].calls - c0 == int(want), "a packaged task does not call its function exactly when a future wants it"); ran(o); }
            else step_queue(rnd(3), rnd(5) == 0);
            check();
        }
        // the end: everything still held completes
        while (!tasks.empty()) { tasks.pop_back(); int o = owner.back(); owner.pop_back(); dropped(o); check(); }
        for (bool more = true; more;) { more = false; for (int e = 0; e < 3; ++e) while (!q[e].q.empty()) { more = true; step_queue(e, false); check(); } }
        for (int i = 0; i < int(h.size()); ++i) { if (!h[i].empty()) CHECK(n[i].st != 0, "a future waits forever"); if constexpr (!isvoid) if (!h[i].empty() && n[i].st == 1) { CHECK(num(std::move(h[i].back()).get_ready()) == n[i].v, "get_ready on the last handle does not return the value"); } }
    }
};
template <class X> void histories(int count, unsigned seed) {
    for (int i = 0; i < count; ++i) { unsigned s = seed * 7919u + unsigned(i); ctx = std::string("history ") + typeid(X).name() + " seed " + std::to_string(s); std::mt19937 r(s); Hist<X> h(r); h.run(6 + int(r() % 40)); ++scenarios; }
}
// ---- functions returning futures; promises; fixed corner cases
static void corners() {
    ctx = "corner";
    for (int ready = 0; ready < 2; ++ready) for (int fail = 0; fail < 3; ++fail) {
        ctx = "reduction ready=" + std::to_string(ready) + " fail=" + std::to_string(fail);
        auto in = package<Val()>(immediate_executor, [fail] { if (fail == 1) throw Err{3}; return Val(5); }); auto out = package<future<Val>()>(immediate_executor, [&] { return std::move(in.second); }); int c = 0; auto tail = out.second.recover(immediate_executor, [&](future<Val>) { ++c; });
        if (ready) { if (fail == 2) in.first = packaged_task<>(); else in.first(); } out.first(); if (!ready) { CHECK(!out.second.is_ready(), "a reduced future is ready before its inner future"); if (fail == 2) in.first = packaged_task<>(); else in.first(); }
        CHECK(out.second.is_ready() && c == 1, "a function returning a future does not complete with it");
        int got = -1; try { got = out.second.get_ready().i; } catch (const Err& e) { got = 1000 + e.id; } catch (const future_error&) { got = 2000; }
        CHECK(got == (fail == 0 ? 5 : fail == 1 ? 1003 : 2000), "a function returning a future does not yield the inner result");
    }
    {   ctx = "then returning a future"; auto a = package<Val()>(immediate_executor, [] { return Val(1); }); auto b = package<Val()>(immediate_executor, [] { return Val(2); }); auto f = a.second.then([&](Val) { return std::move(b.second); }); a.first(); CHECK(!f.is_ready(), "ready too early"); b.first(); CHECK(f.is_ready() && f.get_try()->i == 2, "then of a function returning a future does not yield the inner result"); }
    for (int how = 0; how < 3; ++how) { ctx = "a continuation that attaches to its own future, case " + std::to_string(how); auto pr = package<int()>(immediate_executor, [how] { if (how == 1) throw Err{5}; return 6; }); int c = 0; future<void> in, in2; auto f = pr.second; auto r = f.recover(immediate_executor, [&, f](future<int> g) { ++c; CHECK(f.is_ready() && g.is_ready(), "a continuation runs before its future is ready"); in = f.recover(immediate_executor, [&](future<int>) { ++c; }); in2 = f.recover(immediate_executor, [&](future<int>) { ++c; }); f.detach(); }); auto r2 = f.recover(immediate_executor, [&](future<int>) { ++c; }); if (how == 2) pr.first = packaged_task<>(); else pr.first(); CHECK(c == 4 && r.is_ready() && r2.is_ready() && in.is_ready() && in2.is_ready(), "a continuation attached by a continuation is not called"); }
    {   ctx = "function returning a future throws"; auto out = package<future<Val>()>(immediate_executor, []() -> future<Val> { throw Err{4}; }); out.first(); int got = 0; try { (void)out.second.get_try(); } catch (const Err& e) { got = e.id; } catch (...) { got = -1; } CHECK(got == 4, "the exception of a function returning a future is not the result"); }
    for (int how = 0; how < 4; ++how) { ctx = "a task ended by its own function, case " + std::to_string(how); packaged_task<> slot; std::optional<packaged_task<>> os; auto pr = package<int()>(immediate_executor, [&] { if (how & 1) slot = packaged_task<>(); else os.reset(); if (how & 2) throw Err{5}; return 6; }); if (how & 1) slot = std::move(pr.first); else os.emplace(std::move(pr.first)); if (how & 1) slot(); else (*os)(); int got = 0; try { auto o = pr.second.get_try(); if (o) got = *o; } catch (const Err& e) { got = e.id; } catch (...) { got = -1; } CHECK(got == (how & 2 ? 5 : 6), "a task destroyed by its own function does not deliver the result"); }
    {   ctx = "set_exception"; auto pr = package<int()>(immediate_executor, [] { return 1; }); auto f = pr.second; { auto t = std::move(pr.first); t.set_exception(std::make_exception_ptr(Err{8})); CHECK(t.canceled(), "a task given an exception is not done"); t(); } int got = 0; try { (void)f.get_try(); } catch (const Err& e) { got = e.id; } catch (...) { got = -1; } CHECK(got == 8, "the exception given to a task is not the result"); }
    {   ctx = "outer dropped"; int ran = 0; auto b = package<Val()>(immediate_executor, [&] { ++ran; return Val(2); }); auto a = package<future<Val>()>(immediate_executor, [&] { return std::move(b.second); }); a.first(); a.second.reset(); CHECK(b.first.canceled(), "the inner future is kept although nobody waits"); b.first(); CHECK(!ran, "a cancelled function is called"); }
    {   ctx = "async"; std::deque<T> q; auto ex = [&](auto&& f) { q.emplace_back(std::forward<decltype(f)>(f)); }; Val x(4); auto f = async(ex, [](Val a, Mo m) { return Val(a.i + *m.p); }, x, Mo(3)); CHECK(q.size() == 1 && !f.is_ready() && x.i == 4, "async"); q.front()(); q.pop_front(); CHECK(f.get_try()->i == 7, "async does not deliver the value"); auto g = async(ex, [] { return Val(1); }); q.clear(); CHECK(g.is_ready() && g.error(), "async: dropped work is not reported"); }
    {   ctx = "ready futures"; auto f = make_ready_future(Val(3), immediate_executor); CHECK(f.get_ready().i == 3, "make_ready_future"); Val l(4); auto g = make_ready_future(l, immediate_executor); CHECK(l.i == 4 && g.get_ready().i == 4, "make_ready_future copies an lvalue"); auto m = make_ready_future(Mo(5), immediate_executor); CHECK(*std::move(m).get_ready().p == 5, "make_ready_future of a move-only value"); CHECK(make_ready_future(immediate_executor).is_ready(), "make_ready_future<void>");
        auto e = make_exceptional_future<Val>(std::make_exception_ptr(Err{2}), immediate_executor); for (int i = 0; i < 3; ++i) { bool t = false; try { (void)e.get_ready(); } catch (const Err& x) { t = x.id == 2; } CHECK(t, "an exceptional future does not rethrow every time"); } auto e2 = std::move(e); for (int i = 0; i < 4; ++i) { bool t = false; try { if (i & 1) (void)std::move(e2).get_try(); else (void)std::move(e2).get_ready(); } catch (const Err& x) { t = x.id == 2; } CHECK(t, "an exceptional future does not rethrow every time"); } }
    {   ctx = "last handle"; auto f = make_ready_future(Val(3), immediate_executor); auto g = f; CHECK(std::move(f).get_ready().i == 3 && g.get_ready().i == 3, "a value is moved out although another handle exists"); auto o = std::move(g).get_try(); CHECK(o && o->i == 3, "get_try &&"); }
    {   ctx = "detach"; int c = 0; auto p = package<Val()>(immediate_executor, [&] { ++c; return Val(1); }); p.second.detach(); p.second.reset(); p.first(); CHECK(c == 1, "detached work is not run"); auto p2 = package<Val()>(immediate_executor, [&] { ++c; return Val(1); }); int d = 0; std::move(p2.second).detach([&](future<Val> f) noexcept { d += f.is_ready(); }); p2.first(); CHECK(c == 2 && d == 1, "detach with a continuation"); auto p3 = package<Mo()>(immediate_executor, [&] { ++c; return Mo(1); }); p3.second.detach(); p3.second.reset(); p3.first(); CHECK(c == 3, "detached work is not run"); }
}
// ---- threads (noexc: the C++ runtime's exception objects are opaque to ThreadSanitizer)
static bool noexc;
struct Log { std::mutex m; std::vector<std::pair<int, int>> v; std::thread::id main = std::this_thread::get_id(); std::vector<bool> by; };
template <class X> void race(unsigned seed) {
    std::mt19937 r(seed); int nt = 1 + int(r() % 4), each = 1 + int(r() % 3); int how = noexc ? 0 : int(r() % 4); ctx = std::string("race ") + typeid(X).name() + " seed " + std::to_string(seed); ++racers;
    Log log; std::vector<int> calls(size_t(nt * each)); std::atomic<int> done{0}, wrong{0};
    auto pr = package<X()>(immediate_executor, [how]() -> X { if (how == 1) throw Err{9}; return make<X>(77); });
    std::atomic<bool> go{false}; std::vector<std::thread> th; std::vector<std::vector<future<void>>> res(static_cast<size_t>(nt));
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t, f = pr.second]() mutable {
        while (!go) {}
        for (int k = 0; k < each; ++k) {
            int id = t * each + k;
            auto ex = [&log, t, id](auto&& g) { { std::unique_lock l(log.m); log.v.emplace_back(t, id); log.by.push_back(std::this_thread::get_id() == log.main); } std::forward<decltype(g)>(g)(); };
            res[size_t(t)].push_back(f.recover(ex, [&, id](future<X> g) { if (!g.is_ready()) ++wrong; bool e = bool(g.error()); if (e != (how != 0 && how != 3)) ++wrong; if constexpr (!std::is_void_v<X>) if (!e && num(g.get_ready()) != 77) ++wrong; ++calls[size_t(id)]; ++done; }));
            if (f.is_ready() && !f.is_ready()) ++wrong;
        }
        if (t & 1) { future<X> last = std::move(f); last.reset(); }
    });
    pr.second.reset(); auto task = std::move(pr.first); go = true;
    if (r() % 2) std::this_thread::yield();
    // the copies held by the threads keep the work wanted until each attached its continuations
    if (how == 2) task = packaged_task<>(); else if (how == 1 || how == 0) task(); else { task(); }
    for (auto& t : th) t.join();
    for (int s = 0; s < 2000 && done < nt * each; ++s) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    CHECK(done == nt * each, "a continuation attached while the future became ready is never called"); CHECK(!wrong, "a continuation ran before the result was in place or with another result");
    for (int c : calls) CHECK(c == 1, "a continuation is called more than once");
    CHECK(int(log.v.size()) == nt * each, "a continuation is not scheduled exactly once on its executor");
    std::vector<int> last(size_t(nt), -1); for (size_t i = 0; i < log.v.size(); ++i) if (log.by[i]) { auto& p = log.v[i]; CHECK(p.second > last[size_t(p.first)], "continuations of one thread are scheduled out of attachment order"); last[size_t(p.first)] = p.second; }
    for (auto& v : res) for (auto& f : v) CHECK(f.is_ready(), "a continuation ran but its future is not ready");
}
template <class X> void waits(unsigned seed) {
    std::mt19937 r(seed); ctx = std::string("await ") + typeid(X).name() + " seed " + std::to_string(seed); ++racers; int how = noexc ? 0 : int(r() % 4), us = int(r() % 200);
    auto pr = package<X()>(immediate_executor, [how]() -> X { if (how == 1) throw Err{9}; return make<X>(77); });
    std::thread th([t = std::move(pr.first), how, us]() mutable { std::this_thread::sleep_for(std::chrono::microseconds(us)); if (how == 2) { packaged_task<> d = std::move(t); } else t(); });
    int got = -1; auto take = [&](auto&& f) { if constexpr (std::is_void_v<X>) { f(); got = 77; } else got = num(f()); };
    unsigned mode = r() % 3;
    try {
        if (mode == 0) take([&] { return await(std::move(pr.second)); });
        else {
            auto f = mode == 1 ? await_for(std::move(pr.second), std::chrono::microseconds(r() % 300)) : blocking_get_for(std::move(pr.second), std::chrono::microseconds(r() % 300)); CHECK(f.valid(), "await_for returns a future without state");
            for (int i = 0; i < 2000 && !f.is_ready(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            CHECK(f.is_ready(), "the future returned by await_for never becomes ready"); take([&] { return std::move(f).get_ready(); });
        }
    } catch (const Err& e) { got = 1000 + e.id; } catch (const future_error&) { got = 2000; }
    th.join(); CHECK(got == (how == 1 ? 1009 : how == 2 ? 2000 : 77), "await does not return the value or rethrow the exception");
}
int main(int ac, char** av) {
    unsigned seed = unsigned(std::atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1")); bool th = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough"; std::string m = ac > 1 ? av[1] : "seq"; int f = th ? 10 : 1; noexc = ac > 2;
    if (m == "seq") { corners(); histories<Val>(4000 * f, seed); histories<void>(2000 * f, seed); histories<Mo>(2000 * f, seed); printf("COVER %ld random histories, %ld function calls\n", scenarios, conts); }
    else if (m == "race") { for (int i = 0; i < 6000 * f; ++i) { race<Val>(seed * 131u + unsigned(i)); if (i % 3 == 0) race<void>(seed * 131u + unsigned(i)); } printf("COVER %ld races of attaching and completing\n", racers); }
    else { for (int i = 0; i < 500 * f; ++i) { waits<Val>(seed * 17u + unsigned(i)); waits<void>(seed * 17u + unsigned(i)); waits<Mo>(seed * 17u + unsigned(i)); } printf("COVER %ld waits\n", racers); }
    pre_exit();
}
