// bounded harness for C12, C13: random histories of when_all / when_any against a model, and inputs completed by racing threads
#include "perturb.hpp"
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <stlab/pre_exit.hpp>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace stlab;
static std::string ctx; static long scenarios, racers; static bool noexc;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s [%s]\n", m, ctx.c_str()); fflush(stdout); _exit(1); } } while (0)
struct Err { int id; };
struct Mo { std::unique_ptr<int> p; Mo() = default; explicit Mo(int i) : p(new int(i)) {} };
struct Val { int i = -1; Val() = default; explicit Val(int x) : i(x) {} Val(const Val&) = default; Val& operator=(const Val&) = default; Val(Val&& o) noexcept : i(o.i) { o.i = -2; } Val& operator=(Val&& o) noexcept { i = o.i; o.i = -2; return *this; } };
static int num(const Val& v) { return v.i; }
static int num(const Mo& v) { return v.p ? *v.p : -2; }
template <class X> X make(int v) { if constexpr (!std::is_void_v<X>) return X(v); }
using T = task<void() noexcept>;
struct Q { std::deque<T> q; std::mutex m; }; static Q queue;
struct Ex { bool q; template <class F> void operator()(F&& f) const { if (q) { std::unique_lock l(queue.m); queue.q.emplace_back(std::forward<F>(f)); } else std::forward<F>(f)(); } };
// what the continuation saw
struct Seen { std::atomic<int> calls{0}; std::vector<int> vals; long idx = -1; };
struct In { bool ok = true; int own = -1; bool done = false; };      // own: the input whose task the function of this one holds
struct Op { bool all, rng; int n; };
template <class X> auto input(std::vector<In>& in, std::vector<packaged_task<>>& ts, int i, packaged_task<> owned) {
    auto pr = package<X()>(immediate_executor, [&in, i, o = std::move(owned)]() -> X { if (!in[size_t(i)].ok) throw Err{i}; return make<X>(100 + i); });
    ts[size_t(i)] = std::move(pr.first); return std::move(pr.second);
}
static int result(Seen& s, bool thrower) { ++s.calls; if (thrower) throw Err{777}; return 555; }
// one operation over n inputs of type X (or the mixed tuple)
struct World {
    std::vector<In> in; std::vector<packaged_task<>> ts; Seen seen; future<int> res; std::list<future<Val>> keep; bool thrower = false; Op op; int kind;
    template <class X> std::vector<future<X>> inputs() { std::vector<future<X>> v; for (int i = 0; i < op.n; ++i) { packaged_task<> o; int k = in[size_t(i)].own; if (k >= 0) o = std::move(ts[size_t(k)]); v.push_back(input<X>(in, ts, i, std::move(o))); } return v; }
    template <class X> void range(Ex e, bool held) {
        auto v = inputs<X>(); constexpr bool isv = std::is_void_v<X>;
        auto p = std::make_pair(v.begin(), v.end());
        if (op.all) { if constexpr (isv) res = when_all(e, [this] { return result(seen, thrower); }, p); else res = when_all(e, [this](std::vector<X> a) { for (auto& x : a) seen.vals.push_back(num(x)); return result(seen, thrower); }, p); }
        else { if constexpr (isv) res = when_any(e, [this](size_t i) { seen.idx = long(i); return result(seen, thrower); }, p); else res = when_any(e, [this](X x, size_t i) { seen.idx = long(i); seen.vals.push_back(num(x)); return result(seen, thrower); }, p); }
        if constexpr (std::is_same_v<X, Val>) if (held) for (auto& f : v) keep.push_back(f);
    }
    void start(Ex e, bool held) {
        if (op.rng) { if (kind == 0) range<Val>(e, held); else if (kind == 1) range<void>(e, held); else range<Mo>(e, held); return; }
        auto own = [&](int i) { packaged_task<> o; int k = in[size_t(i)].own; if (k >= 0) o = std::move(ts[size_t(k)]); return o; };
        if (op.all) {
            if (op.n == 0) { res = when_all(e, [this] { return result(seen, thrower); }); return; }
            if (op.n == 1) { res = when_all(e, [this](Val a) { seen.vals = {num(a)}; return result(seen, thrower); }, input<Val>(in, ts, 0, {})); return; }
            if (op.n == 2) { auto a = input<void>(in, ts, 0, own(0)); auto b = input<void>(in, ts, 1, own(1)); res = when_all(e, [this] { return result(seen, thrower); }, std::move(a), std::move(b)); return; }
            auto a = input<Val>(in, ts, 0, own(0)); auto b = input<void>(in, ts, 1, own(1)); auto c = input<Mo>(in, ts, 2, own(2)); auto d = input<Val>(in, ts, 3, own(3));
            res = when_all(e, [this](Val x, Mo y, Val z) { seen.vals = {num(x), num(y), num(z)}; return result(seen, thrower); }, std::move(a), std::move(b), std::move(c), std::move(d));
        } else if (kind == 0) { auto a = input<Val>(in, ts, 0, own(0)); auto b = input<Val>(in, ts, 1, own(1)); auto c = input<Val>(in, ts, 2, own(2)); res = when_any(e, [this](Val x, size_t i) { seen.idx = long(i); seen.vals = {num(x)}; return result(seen, thrower); }, std::move(a), std::move(b), std::move(c)); }
        else if (kind == 1) { auto a = input<void>(in, ts, 0, own(0)); auto b = input<void>(in, ts, 1, own(1)); auto c = input<void>(in, ts, 2, own(2)); res = when_any(e, [this](size_t i) { seen.idx = long(i); return result(seen, thrower); }, std::move(a), std::move(b), std::move(c)); }
        else { auto a = input<Mo>(in, ts, 0, own(0)); auto b = input<Mo>(in, ts, 1, own(1)); res = when_any(e, [this](Mo x, size_t i) { seen.idx = long(i); seen.vals = {num(x)}; return result(seen, thrower); }, std::move(a), std::move(b)); }
    }
    // the values the continuation of a when_all must see
    std::vector<int> want() { std::vector<int> v; if (op.rng) { if (kind != 1) for (int i = 0; i < op.n; ++i) v.push_back(100 + i); } else if (op.n == 1) v = {100}; else if (op.n > 2) v = {100, 102, 103}; return v; }
    void verify(const std::vector<int>& good, const std::vector<int>& bad, bool decided, bool exact) {
        bool all = op.all, empty_any = op.n == 0 && !all; bool ok = all ? int(good.size()) == op.n : !good.empty(), fail = empty_any || (all ? !bad.empty() : int(bad.size()) == op.n); bool d = ok || fail; (void)decided;
        CHECK(res.is_ready() == d, d ? "the outcome is decided but the result is not ready" : "the result is ready before the outcome is decided");
        if (!d) { CHECK(seen.calls == 0, "the continuation is called before the outcome is decided"); return; }
        int got = -1; bool thrown = false, broken = false; try { auto o = res.get_try(); if (o) got = *o; } catch (const Err& e) { thrown = true; got = e.id; } catch (const future_error& e) { broken = e.code() == future_error_codes::broken_promise; }
        bool cont = ok && (all ? bad.empty() : true);
        if (cont) {
            CHECK(seen.calls == 1, "the continuation is not called exactly once"); CHECK(thrower ? thrown && got == 777 : !thrown && got == 555, "the result is not that of the continuation");
            if (all) CHECK(seen.vals == want(), "the continuation does not receive the values of the inputs in order");
            else { bool in_ = false; for (int g : good) in_ |= g == seen.idx; CHECK(in_, "the index is not that of an input that succeeded"); if (exact) CHECK(seen.idx == good[0], "the winner is not the first input that succeeded"); if (!seen.vals.empty()) CHECK(seen.vals[0] == 100 + int(seen.idx), "the value is not that of the winner"); if (kind != 1) CHECK(!seen.vals.empty(), "no value"); }
        } else {
            CHECK(seen.calls == 0, "the continuation is called although the operation failed"); bool in_ = broken && (empty_any || any_broken); for (int b : bad) in_ |= thrown && got == b;
            CHECK(in_, "the error is not that of an input that failed");
        }
    }
    bool any_broken = false;
};
static void history(unsigned seed) {
    std::mt19937 r(seed); auto rnd = [&](int k) { return int(r() % unsigned(k)); }; ++scenarios;
    World w; w.op.all = rnd(2); w.op.rng = rnd(3) != 0; w.kind = rnd(3); w.op.n = w.op.rng ? rnd(9) : w.op.all ? (rnd(4) ? 4 : rnd(3)) : (w.kind == 2 ? 2 : 3); w.thrower = rnd(5) == 0; int n = w.op.n; bool queued = rnd(3) == 0, held = rnd(4) == 0; int fails = rnd(3);
    ctx = "history seed " + std::to_string(seed) + (w.op.all ? " when_all" : " when_any") + (w.op.rng ? " range" : " tuple") + " kind " + std::to_string(w.kind) + " n " + std::to_string(n) + (queued ? " queued" : "");
    w.in.resize(size_t(n)); w.ts.resize(size_t(n));
    for (int i = 0; i < n; ++i) { w.in[size_t(i)].ok = fails == 0 ? true : fails == 1 ? rnd(3) != 0 : rnd(3) == 0; bool free = true; int k = i > 0 ? rnd(i) : -1; for (int j = 0; j < i; ++j) free &= w.in[size_t(j)].own != k; if (k >= 0 && rnd(3) == 0 && free && !(w.op.all && !w.op.rng && n < 2)) w.in[size_t(i)].own = k; }
    std::vector<int> good, bad, events; bool decided = false;
    auto drop = [&](auto& self, int i) -> void { if (w.in[size_t(i)].done) return; w.in[size_t(i)].done = true; w.any_broken = true; events.push_back(-1 - i); if (w.in[size_t(i)].own >= 0) self(self, w.in[size_t(i)].own); };
    auto ran = [&](int i) { if (w.in[size_t(i)].done) return; w.in[size_t(i)].done = true; events.push_back(w.in[size_t(i)].ok ? 1 + i : -1 - i); if (w.in[size_t(i)].own >= 0) drop(drop, w.in[size_t(i)].own); };
    auto flush = [&] { for (int e : events) { if (decided) break; if (e > 0) good.push_back(e - 1); else bad.push_back(-e - 1); decided = w.op.all ? (!bad.empty() || int(good.size()) == n) : (!good.empty() || int(bad.size()) == n); } events.clear(); };
    auto pump = [&] { while (queued) { T t; { if (queue.q.empty()) break; t = std::move(queue.q.front()); queue.q.pop_front(); } t(); } };
    bool abandon = rnd(6) == 0; 
    w.start(Ex{queued}, held); if (n == 0) { pump(); w.verify(good, bad, true, true); return; }
    if (!queued || rnd(2)) w.verify(good, bad, decided, true);
    std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i); std::shuffle(order.begin(), order.end(), r);
    int at = 0;
    for (int i : order) {
        if (abandon && at++ == n / 2) { w.res.reset(); for (auto& t : w.ts) t = packaged_task<>(); pump(); CHECK(w.seen.calls <= 1, "an abandoned operation calls its continuation"); return; }
        bool inner = false; for (auto& x : w.in) inner |= x.own == i;
        if (inner) continue;                       // its task lives in the function of another input
        bool was = w.in[size_t(i)].done;
        if (rnd(5) == 0) { w.ts[size_t(i)] = packaged_task<>(); if (!was) drop(drop, i); } else { w.ts[size_t(i)](); if (!was) ran(i); }
        if (queued) { if (rnd(2)) pump(); else { pump(); } }
        flush(); w.verify(good, bad, decided, true);
    }
    w.ts.clear(); for (int i = 0; i < n; ++i) if (!w.in[size_t(i)].done) drop(drop, i);
    pump(); flush(); w.verify(good, bad, decided, true); CHECK(w.res.is_ready(), "every input has reported but the result is not ready"); queue.q.clear();
}
// inputs that are ready before the operation starts
static void ready_inputs(unsigned seed) {
    std::mt19937 r(seed); auto rnd = [&](int k) { return int(r() % unsigned(k)); }; ++scenarios; int n = 1 + rnd(5); bool all = rnd(2); ctx = "ready inputs seed " + std::to_string(seed);
    std::vector<future<Val>> v; std::vector<packaged_task<>> ts; std::vector<int> st; int firstgood = -1, goods = 0, bads = 0;
    for (int i = 0; i < n; ++i) { int s = rnd(3); st.push_back(s); if (s == 0) v.push_back(make_ready_future(Val(100 + i), immediate_executor)); else if (s == 1) v.push_back(make_exceptional_future<Val>(std::make_exception_ptr(Err{i}), immediate_executor)); else { auto p = package<Val()>(immediate_executor, [i] { return Val(100 + i); }); v.push_back(std::move(p.second)); ts.push_back(std::move(p.first)); } }
    std::vector<int> vals; long idx = -1; int calls = 0; future<int> f;
    if (all) f = when_all(immediate_executor, [&](std::vector<Val> x) { ++calls; for (auto& y : x) vals.push_back(y.i); return 1; }, std::make_pair(v.begin(), v.end()));
    else f = when_any(immediate_executor, [&](Val x, size_t i) { ++calls; idx = long(i); vals.push_back(x.i); return 1; }, std::make_pair(v.begin(), v.end()));
    for (int i = 0; i < n; ++i) { if (st[size_t(i)] == 0) { ++goods; if (firstgood < 0) firstgood = i; } if (st[size_t(i)] == 1) ++bads; }
    bool early = all ? (bads > 0 || goods == n) : (goods > 0 || bads == n); CHECK(f.is_ready() == early, "a result is not ready although its inputs are (or the other way round)");
    for (auto& t : ts) t();
    CHECK(f.is_ready(), "every input is ready but the result is not");
    if (all) { CHECK(calls == (bads == 0), "the continuation of when_all"); if (calls) for (int i = 0; i < n; ++i) CHECK(vals[size_t(i)] == 100 + i, "the values of when_all are not in order"); else { int got = -1; try { (void)f.get_try(); } catch (const Err& e) { got = e.id; } CHECK(got >= 0 && got < n && st[size_t(got)] == 1, "the error of when_all is not that of an input"); } }
    else { CHECK(calls == (bads < n), "the continuation of when_any"); if (calls) CHECK(vals[0] == 100 + idx && (goods == 0 || idx == firstgood), "the winner of when_any is not the first success"); }
}
static void race(unsigned seed) {
    std::mt19937 r(seed); auto rnd = [&](int k) { return int(r() % unsigned(k)); }; ++racers;
    World w; w.op.all = rnd(2); w.op.rng = rnd(2); w.kind = rnd(3); w.op.n = w.op.rng ? 2 + rnd(4) : w.op.all ? (rnd(4) ? 4 : 2) : (w.kind == 2 ? 2 : 3); w.thrower = !noexc && rnd(6) == 0; int n = w.op.n; int fails = noexc ? 0 : rnd(3); bool cascade = !noexc && rnd(3) == 0;
    ctx = "race seed " + std::to_string(seed) + (w.op.all ? " when_all" : " when_any") + (w.op.rng ? " range" : " tuple") + " kind " + std::to_string(w.kind) + " n " + std::to_string(n);
    w.in.resize(size_t(n)); w.ts.resize(size_t(n)); std::vector<int> good, bad;
    if (cascade && n > 1) w.in[size_t(n - 1)].own = 0;
    for (int i = 0; i < n; ++i) { bool ok = fails == 0 ? true : fails == 1 ? rnd(3) != 0 : rnd(4) == 0; w.in[size_t(i)].ok = ok; bool inner = cascade && n > 1 && i == 0; (ok && !inner ? good : bad).push_back(i); if (inner) w.any_broken = true; }
    std::vector<std::thread> th; std::atomic<bool> go{false}; std::vector<packaged_task<>> ts;
    // the inputs are made first, so that threads can complete them while the operation is being built
    std::mutex m; w.start(Ex{false}, false);
    for (int i = 0; i < n; ++i) { bool inner = cascade && n > 1 && i == 0; if (inner) continue; th.emplace_back([&, t = std::move(w.ts[size_t(i)])]() mutable { while (!go) {} t(); }); }
    go = true; for (auto& t : th) t.join();
    bool ok = w.op.all ? bad.empty() : !good.empty(); (void)ok;
    CHECK(w.res.is_ready(), "every input has reported but the result is not ready");
    w.verify(good, bad, true, false);
}
// inputs completing while they are being attached
static void attach_race(unsigned seed) {
    std::mt19937 r(seed); auto rnd = [&](int k) { return int(r() % unsigned(k)); }; ++racers; int n = 2 + rnd(4); bool all = rnd(2); int fails = noexc ? 0 : rnd(3); ctx = "attach race seed " + std::to_string(seed) + (all ? " when_all" : " when_any");
    std::vector<future<Val>> v; std::vector<packaged_task<>> ts; std::vector<char> ok; int good = 0;
    for (int i = 0; i < n; ++i) { ok.push_back(fails == 0 ? 1 : fails == 1 ? rnd(3) != 0 : rnd(4) == 0); good += ok.back(); auto p = package<Val()>(immediate_executor, [i, o = ok.back()] { if (!o) throw Err{i}; return Val(100 + i); }); v.push_back(std::move(p.second)); ts.push_back(std::move(p.first)); }
    std::atomic<bool> go{false}; std::vector<std::thread> th; for (int i = 0; i < n; ++i) th.emplace_back([&, t = std::move(ts[size_t(i)]), us = rnd(60)]() mutable { while (!go) {} std::this_thread::sleep_for(std::chrono::microseconds(us)); t(); });
    std::vector<int> vals; long idx = -1; std::atomic<int> calls{0}; future<int> f; go = true;
    if (all) f = when_all(immediate_executor, [&](std::vector<Val> x) { ++calls; for (auto& y : x) vals.push_back(y.i); return 1; }, std::make_pair(v.begin(), v.end()));
    else f = when_any(immediate_executor, [&](Val x, size_t i) { ++calls; idx = long(i); vals.push_back(x.i); return 1; }, std::make_pair(v.begin(), v.end()));
    for (auto& t : th) t.join();
    CHECK(f.is_ready(), "every input has reported but the result is not ready"); bool cont = all ? good == n : good > 0; CHECK(calls == int(cont), "the continuation is not called exactly when it should be");
    if (cont && all) for (int i = 0; i < n; ++i) CHECK(vals[size_t(i)] == 100 + i, "the values of when_all are not in order");
    if (cont && !all) CHECK(ok[size_t(idx)] && vals[0] == 100 + idx, "the winner of when_any did not succeed, or has another value");
    if (!cont) { int got = -1; try { (void)f.get_try(); } catch (const Err& e) { got = e.id; } CHECK(got >= 0 && !ok[size_t(got)], "the error is not that of an input that failed"); }
}
// cancelling one input ends the task of another one
static void cascades() {
    for (int k = 0; k < 4; ++k) {
        ctx = "cascade " + std::to_string(k); auto a = package<int()>(immediate_executor, []() -> int { throw Err{1}; }), c = package<int()>(immediate_executor, [] { return 3; }), d = package<int()>(immediate_executor, [] { return 4; }); auto b = package<int()>(immediate_executor, [t = std::move(c.first)]() mutable { t(); return 2; }); int calls = 0;
        if (k == 0) { auto r = when_all(immediate_executor, [&](int, int, int) { ++calls; }, std::move(a.second), std::move(b.second), std::move(c.second)); a.first(); CHECK(r.is_ready() && r.exception() && !calls, "when_all tuple"); }
        else { future<int> v[3] = {std::move(k == 2 ? d.second : a.second), std::move(b.second), std::move(c.second)}; future<void> r; if (k == 1) r = when_all(immediate_executor, [&](std::vector<int>) { ++calls; }, std::make_pair(v, v + 3)); else r = when_any(immediate_executor, [&](int, size_t) { ++calls; }, std::make_pair(v, v + 3)); for (auto& x : v) x.reset(); (k == 2 ? d : a).first(); if (k == 3) b.first = packaged_task<>(); CHECK(r.is_ready() && (k == 2 ? calls == 1 : calls == 0 && bool(r.exception())), "range"); }
    }
}
int main(int ac, char** av) {
    unsigned seed = unsigned(std::atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1")); bool th = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough"; std::string m = ac > 1 ? av[1] : "seq"; int f = th ? 10 : 1; noexc = ac > 2;
    if (m == "seq") { cascades(); for (int i = 0; i < 20000 * f; ++i) { history(seed * 7919u + unsigned(i)); if (i % 4 == 0) ready_inputs(seed * 104729u + unsigned(i)); } printf("COVER %ld random histories\n", scenarios); }
    else { for (int i = 0; i < 4000 * f; ++i) { race(seed * 131u + unsigned(i)); attach_race(seed * 137u + unsigned(i)); } printf("COVER %ld races\n", racers); }
    pre_exit();
}
